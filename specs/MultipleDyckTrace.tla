--------------------------- MODULE MultipleDyckTrace ---------------------------
EXTENDS MultipleDyck, TraceBase
vars == <<tree, at>>
TInit == TraceInit /\ AInit
Sets == [k \in 1..Len(Case.cells) |-> {Case.cells[k][m] : m \in 1..Len(Case.cells[k])}]
\* the symbol x has the sort Case.sort[x]; sorts beyond the list: 0
Sort == IF Case.sort = <<>> THEN <<>> ELSE Case.sort
Step(e) == e.op = "rec" /\ e.res = Member(e.w, Sets, <<>>)
           /\ (Has(e, "sorted") => e.sorted = Member(e.w, Sets, Sort) /\ e.sortedread = e.sorted)
           /\ e.read = e.res /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
