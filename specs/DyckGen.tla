------------------------------- MODULE DyckGen -------------------------------
(* All bracket words of length at most N over two symbols, one hundred per case or so (grouped by their first brackets). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
N == atoi(IOEnv.GEN_N)
B == {"o", "c"} \X (1..2)
Words(k) == [1..k -> B]
Short == {[ty |-> t, words |-> SetToSeq(UNION {Words(k) : k \in 0..3})] : t \in {"int", "str"}}
Long == UNION {{[ty |-> "int", words |-> SetToSeq({p \o s : s \in Words(k - 4)})] : p \in Words(4)} : k \in 4..N}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Short \cup Long))
VARIABLE dummy
Spec == dummy = 0 /\ [][UNCHANGED dummy]_dummy
=============================================================================
