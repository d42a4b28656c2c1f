----------------------------- MODULE EquivalenceTrace -----------------------------
EXTENDS Equivalence, TraceBase
VARIABLES dummy
vars == <<dummy>>
TInit == TraceInit /\ dummy = 0
Given == CASE Case.kind = "text" -> ReadText(Case.text, Case.ty)
           [] Case.kind = "map" -> LET cs == Append(Case.classes, Cls(Case.default, TRUE, <<>>)) IN [s |-> IF Valid(cs) THEN "ok" ELSE "fail", v |-> cs]
           \* a list of classes that overlap is not checked by the infallible conversion; a missing default is
           [] Case.kind = "list" -> LET cs == Case.classes IN [s |-> IF Valid(cs) THEN "ok" ELSE IF \A k \in 1..Len(cs) : ~cs[k].dflt THEN "fail" ELSE "free", v |-> cs]
Projections(cs) == [k \in 1..Len(Case.queries) |-> Project(cs, Case.queries[k])]
Labels(cs) == {cs[k].label : k \in 1..Len(cs)}
Conforms(r, res) == CASE r.s = "ok" -> res = <<Projections(r.v)>>
                      [] r.s = "fail" -> res = <<>>
                      [] r.s = "free" -> TRUE
Step(e) ==
  \/ e.op = "rel" /\ Conforms(Given, e.res) = TRUE /\ UNCHANGED vars
  \* comparison with other relations, from both sides, and of a copy with its original
  \/ e.op = "eq" /\ (Given.s = "ok" /\ Valid(e.other) => LET x == SameRelation(Given.v, e.other) IN e.res = x /\ e.back = x /\ e.copy) = TRUE /\ UNCHANGED vars
  \/ /\ e.op = "class"
     /\ (LET r == IF Case.text = <<>> THEN Fail ELSE IF Case.text[1] \in White THEN Free ELSE ReadClass(Case.text, "str") d == Case.cand
         IN CASE r.s = "fail" -> e.res = <<>>
              [] r.s = "free" \/ r.fr -> TRUE
              [] OTHER -> e.res = <<r.v.label = d.label /\ r.v.dflt = d.dflt /\ Elems(r.v.members) = Elems(d.members)>>) = TRUE
     /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
