---------------------------- MODULE MultipleDyckGen ----------------------------
(* All balanced words of length at most N and all words of length at most 3, for all partitions and sorts of the model. *)
EXTENDS MultipleDyckMC, SequencesExt, Json, IOUtils
N == atoi(IOEnv.GEN_N)
RECURSIVE Dycks(_)
Dycks(n) == IF n = 0 THEN {<<>>}
            ELSE UNION {{<<<<"o", x>>>> \o u \o <<<<"c", x>>>> \o v : x \in Syms, u \in Dycks(k), v \in Dycks(n - 1 - k)} : k \in 0..(n - 1)}
Words_(x_) == SetToSeq(UNION {Dycks(k) : k \in 0..(N \div 2)} \cup UNION {[1..k -> {"o", "c"} \X (Syms \cup {4})] : k \in 0..2})
Cases_(x_) == LET ws == Words_(0) IN {[cells |-> [k \in 1..Len(p) |-> SetToSeq(p[k])], sort |-> q, words |-> ws] : p \in Partitions, q \in SortFuns}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases_(0)))
GenSpec == Init /\ [][UNCHANGED vars]_vars
=============================================================================
