--------------------------- MODULE UniqueHeapTrace ---------------------------
EXTENDS UniqueHeap, TraceBase
vars == <<heap, items, out>>
SetOf(s) == {s[i] : i \in 1..Len(s)}
Starts == CASE Case.ctor = "vec" -> AnyOne(Case.init) [] OTHER -> {FirstOnly(Case.init)}
TInit == TraceInit /\ HInit(Starts)
TopSeq(h) == IF h = {} THEN <<>> ELSE <<CHOOSE p \in h : \A q \in h : q = p \/ Less(q, p)>>
\* what len, is_empty, peek and iteration show after the operation
Shows(e, h) == /\ e.len = Cardinality(h) /\ e.empty = (h = {}) /\ e.peek = TopSeq(h)
               /\ Len(e.all) = Cardinality(h) /\ SetOf(e.all) = h
Step(e) ==
  \/ e.op = "new" /\ UNCHANGED vars /\ Shows(e, heap)
  \/ e.op = "push" /\ Push(e.x, e.w) /\ (e.res <=> out'[1] = "pushed") /\ Shows(e, heap')
  \/ e.op = "pop" /\ Pop /\ e.res = (IF out'[1] = "popped" THEN <<<<out'[2][2], out'[2][1]>>>> ELSE <<>>) /\ Shows(e, heap')
  \/ e.op = "clone" /\ UNCHANGED vars /\ Shows(e, heap)
  \/ e.op = "sorted" /\ e.all = Sorted(heap) /\ UNCHANGED vars
  \/ e.op = "drain" /\ SetOf(e.all) = heap /\ Len(e.all) = Cardinality(heap) /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
