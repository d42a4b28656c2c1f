---------------------------- MODULE PartitionTrace ----------------------------
EXTENDS Partition, TraceBase
VARIABLES todo    \* cells not given yet
vars == <<cell, ok, todo>>
SetOf(s) == {s[i] : i \in 1..Len(s)}
Sets(ss) == [i \in 1..Len(ss) |-> SetOf(ss[i])]
IsAsc(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
TInit == TraceInit /\ PInit /\ todo = Sets(Case.cells)
\* the silent steps that give all cells are taken together when the result is reported
Given == IF Disjoint(todo) THEN [c |-> Table(todo), ok |-> TRUE] ELSE [c |-> <<>>, ok |-> FALSE]
Step(e) ==
  \/ e.op = "new" /\ ok' = Given.ok /\ cell' = Given.c /\ todo' = todo /\ e.res = ok'
  \/ e.op = "alphabet" /\ ok /\ IsAsc(e.res) /\ SetOf(e.res) = DOMAIN cell /\ UNCHANGED vars
  \/ e.op = "cell" /\ ok /\ UNCHANGED vars
       /\ IF e.x \in DOMAIN cell THEN Len(e.res) = 1 /\ IsAsc(e.res[1]) /\ SetOf(e.res[1]) = cell[e.x] ELSE e.res = <<>>
  \/ e.op = "collapse" /\ ok /\ UNCHANGED vars
       /\ Len(e.res) = Cardinality(CellsOf(cell)) /\ SetOf(Sets(e.res)) = CellsOf(cell)
  \/ e.op = "rebuild" /\ ok /\ e.res = TRUE /\ UNCHANGED vars
  \/ e.op = "serde" /\ ok /\ e.res = <<TRUE>> /\ UNCHANGED vars
  \/ e.op = "read" /\ e.res = Disjoint(todo) /\ UNCHANGED vars
  \/ e.op = "same" /\ ok /\ UNCHANGED vars
       /\ LET other == Sets(Case.other)
          IN IF Disjoint(other) THEN e.res = <<Table(other) = cell>> ELSE e.res = <<>>
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
