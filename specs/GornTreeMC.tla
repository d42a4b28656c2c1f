----------------------------- MODULE GornTreeMC -----------------------------
EXTENDS GornTree
CONSTANTS MaxOps
VARIABLES n
Addr == {<<>>, <<0>>, <<1>>, <<0, 1>>, <<0, 0, 2>>}
MCInit == GInit(<<>>, <<>>) /\ n = 0
MCNext == /\ n < MaxOps /\ n' = n + 1
          /\ \/ \E k \in Addr, v \in 1..2 : Insert(k, v) \/ OrInsert(k, v) \/ Modify(k, v)
             \/ \E k \in Addr : Remove(k) \/ SplitOff(k)
             \/ Append_ \/ Swap \/ Clear
MCSpec == MCInit /\ [][MCNext]_<<a, b, out, n>>
Total == \A x, y \in Addr : x = y \/ (LexLess(x, y) <=> ~LexLess(y, x))
PrefixFirst == \A x, y \in Addr : (Len(x) < Len(y) /\ x = SubSeq(y, 1, Len(x))) => LexLess(x, y)
Ordered == LET e == Entries(a) IN /\ Len(e) = Cardinality(DOMAIN a)
                                  /\ \A i \in 1..(Len(e) - 1) : LexLess(e[i][1], e[i + 1][1])
                                  /\ Collect(<<>>, e) = a
\* nothing is lost or invented when trees are appended or split
Kept == [][\A k \in Addr : SplitOff(k) => Over(a', b') = a /\ DOMAIN a' \cap DOMAIN b' = {}]_<<a, b, out, n>>
=============================================================================
