---------------------------- MODULE PartitionGen ----------------------------
(* All lists of at most N cells over three symbols, each compared with a permuted variant. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
N == atoi(IOEnv.GEN_N)
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Asc(s \ {m})
Lists == UNION {[1..k -> {Asc(s) : s \in SUBSET (1..3)}] : k \in 0..N}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Cs == {[cells |-> x, other |-> o, ty |-> t] : x \in Lists, o \in {<<<<1>>, <<2>>, <<3>>>>, <<<<1, 2>>, <<>>>>}, t \in {"int", "str"}}
      \cup {[cells |-> x, other |-> Rev(x), ty |-> "int"] : x \in Lists}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cs))
VARIABLE dummy
Spec == dummy = 0 /\ [][UNCHANGED dummy]_dummy
=============================================================================
