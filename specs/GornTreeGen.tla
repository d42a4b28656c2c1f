---------------------------- MODULE GornTreeGen ----------------------------
(* Every script of N operations over four nested addresses, from two starting trees. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
N == atoi(IOEnv.GEN_N)
Addr == {<<>>, <<0>>, <<1>>, <<0, 1>>}
Ops == {[op |-> o, k |-> k, v |-> 5] : o \in {"insert", "remove", "split"}, k \in Addr}
       \cup {[op |-> "entry", k |-> <<0>>, v |-> 6], [op |-> "modify", k |-> <<0, 1>>, v |-> 7], [op |-> "get", k |-> <<0>>, v |-> 0]}
       \cup {[op |-> o, k |-> <<>>, v |-> 3] : o \in {"append", "swap", "clear", "addall", "clone", "collect", "cloned", "addallit"}}
Starts == {<<<<>>, <<>>>>, <<<<<<<<1>>, 1>>, <<<<0, 1>>, 2>>, <<<<>>, 3>>>>, <<<<<<0>>, 4>>, <<<<0, 1>>, 2>>>>>>}
Scripts == {[a |-> s[1], b |-> s[2], ops |-> o] : s \in Starts, o \in [1..N -> Ops]}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Scripts))
VARIABLE dummy
Spec == dummy = 0 /\ [][UNCHANGED dummy]_dummy
=============================================================================
