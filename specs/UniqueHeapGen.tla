---------------------------- MODULE UniqueHeapGen ----------------------------
(* Every construction from at most three pairs followed by every script of N operations over two elements. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
N == atoi(IOEnv.GEN_N)
Pairs == (0..1) \X (1..2)
Inits == UNION {[1..k -> Pairs] : k \in 0..2}
Ops == {[op |-> "push", x |-> e, w |-> w] : e \in 1..2, w \in 0..1} \cup {[op |-> "pop"]}
Scripts == {[ctor |-> ct, ty |-> "int", hasher |-> h, init |-> i, ops |-> o]
            : ct \in {"iter", "vec"}, h \in {"std", "fnv"}, i \in Inits, o \in [1..N -> Ops]}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Scripts))
VARIABLE dummy
Spec == dummy = 0 /\ [][UNCHANGED dummy]_dummy
=============================================================================
