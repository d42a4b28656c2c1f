------------------------------ MODULE StoragesGen ------------------------------
(* Scripts: every applicable sequence of GEN_N tree-stack instructions (each followed by one that might be refused), every pair of replacements. *)
EXTENDS StoragesMC, SequencesExt, Json, IOUtils
N == atoi(IOEnv.GEN_N)
I(i) == [op |-> "instr", from |-> 1, to |-> 1, i |-> i]
\* the refused ones go to register 2, that follows the first one step behind
Other(i) == [op |-> "instr", from |-> 1, to |-> 2, i |-> i]
Tail3 == <<[op |-> "text", from |-> 1, to |-> 1], [op |-> "ups", from |-> 1, to |-> 1], [op |-> "eq", from |-> 1, to |-> 1], [op |-> "number", from |-> 1, to |-> 3], [op |-> "eq", from |-> 1, to |-> 1]>>
RECURSIVE Seqs(_, _)
Seqs(st, k) == IF k = 0 THEN {<<>>}
               ELSE {<<>>} \cup UNION {{<<i>> \o r : r \in Seqs(ApplyTree(i, st)[1], k - 1)} : i \in {x \in TreeInstrs : ApplyTree(x, st) # <<>>}}
Odd(k) == CASE k % 3 = 0 -> <<"Down", 1, 0, 1>> [] k % 3 = 1 -> <<"Up", 0, 1, 0, 1>> [] OTHER -> <<"Push", 2, 0, 1>>
Cases_(x_) == {[kind |-> "tree", root |-> 0, script |-> FlattenSeq([k \in 1..Len(q) |-> <<I(q[k]), Other(Odd(k + Len(q)))>>]) \o Tail3] : q \in Seqs(NewTree(0), N)}
   \cup {[kind |-> "push", root |-> r, script |-> <<[op |-> "instr", from |-> 1, to |-> 2, old |-> o, new |-> n], [op |-> "replace", from |-> 1, to |-> 3, old |-> o, new |-> n],
                                                    [op |-> "read", from |-> 2, to |-> 2], [op |-> "eq", from |-> 1, to |-> 1]>>] : r \in {<<0>>, <<0, 1>>, <<1, 0, 0>>}, o \in Words, n \in Words}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases_(0)))
GenSpec == Init /\ [][UNCHANGED vars]_vars
=============================================================================
