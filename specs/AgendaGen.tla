------------------------------ MODULE AgendaGen ------------------------------
(* All scripts of N operations for every discipline: replayed on the real agendas. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
N == atoi(IOEnv.GEN_N)
Ops == {[op |-> "push", p |-> p] : p \in 0..2} \cup {[op |-> "pop"], [op |-> "extend", ps |-> <<1, 0, 2>>]}
K(d, via, cap, beta, mul) == [kind |-> d, via |-> via, cap |-> cap, beta |-> beta, mul |-> mul]
Kinds == {K("lifo", "trait", 0, 0, "add"), K("fifo", "trait", 0, 0, "add")}
   \cup {K("heap", v, 0, 0, "add") : v \in {"trait", "weighted"}}
   \cup {K("limited", v, m, 0, "add") : v \in {"trait", "weighted", "raw"}, m \in 0..3}
   \cup {K("beam", v, 0, b, "add") : v \in {"trait", "weighted", "raw"}, b \in {-1, 0, 1}}
   \cup {K("beam", v, 0, b, "mul") : v \in {"trait", "weighted", "raw"}, b \in {0, 1, 2}}
Scripts == {[kind |-> k.kind, via |-> k.via, cap |-> k.cap, beta |-> k.beta, mul |-> k.mul, init |-> <<>>, ops |-> o]
            : k \in Kinds, o \in [1..N -> Ops]}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Scripts))
VARIABLE dummy
Spec == dummy = 0 /\ [][UNCHANGED dummy]_dummy
=============================================================================
