---------------------------- MODULE UniqueHeapMC ----------------------------
EXTENDS UniqueHeap
CONSTANTS Elems, Weights, MaxOps
VARIABLES n, last   \* number of operations; the previous popped pair if nothing was pushed since
Lists == UNION {[1..k -> Weights \X Elems] : k \in 0..2}
MCInit == /\ n = 0 /\ last = <<>>
          /\ \E ps \in Lists : HInit({FirstOnly(ps)} \cup AnyOne(ps))
MCNext == /\ n < MaxOps /\ n' = n + 1
          /\ \/ \E e \in Elems, w \in Weights : Push(e, w) /\ last' = <<>>
             \/ Pop /\ last' = IF out'[1] = "popped" THEN <<out'[2]>> ELSE last
MCSpec == MCInit /\ [][MCNext]_<<heap, items, out, n, last>>
Once == \A p, q \in heap : p[2] = q[2] => p = q
Agree == items = {p[2] : p \in heap}
Unique == heap # {} => Cardinality(Tops) = 1
\* pops without pushes in between come in descending order
Descending == [][last # <<>> /\ out'[1] = "popped" => Less(out'[2], last[1])]_<<heap, items, out, n, last>>
\* an element that was popped can be pushed again
Again == out[1] = "popped" => out[2][2] \notin items
SortedOk == LET s == Sorted(heap) IN Len(s) = Cardinality(heap) /\ \A i \in 1..(Len(s) - 1) : Less(s[i], s[i + 1])
=============================================================================
