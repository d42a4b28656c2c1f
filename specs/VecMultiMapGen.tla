---------------------------- MODULE VecMultiMapGen ----------------------------
(* Every script of N operations at indices 0..2, for the map and the adapter, with every kind of final conversion. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
N == atoi(IOEnv.GEN_N)
Ops == {[op |-> o, i |-> i] : o \in {"push", "get", "fail"}, i \in 0..2} \cup {[op |-> "mut", i |-> 1, s |-> <<>>]}
Map == {[via |-> "map", ty |-> "int", init |-> <<>>, ops |-> o, end |-> e] : o \in [1..N -> Ops], e \in {<<>>, <<0>>, <<2>>, <<5>>}}
Ada == {[via |-> "adapter", ty |-> "int", init |-> i, ops |-> o, end |-> <<>>] : o \in [1..N -> Ops], i \in {<<>>, <<<<7>>>>, <<<<7, 8>>, <<>>>>}}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Map \cup Ada))
VARIABLE dummy
Spec == dummy = 0 /\ [][UNCHANGED dummy]_dummy
=============================================================================
