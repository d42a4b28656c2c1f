--------------------------- MODULE VecMultiMapTrace ---------------------------
EXTENDS VecMultiMap, TraceBase
vars == <<vec, out>>
TInit == TraceInit /\ VInit(Case.init)
Step(e) ==
  \/ e.op = "push" /\ PushTo(e.i, e.x)
  \/ e.op = "get" /\ Get(e.i) /\ e.res = out'[2]
  \/ e.op \in {"fail", "index"} /\ GetOrFail(e.i) /\ e.res = (IF out'[1] = "list" THEN <<out'[2]>> ELSE <<>>)
  \/ e.op = "mut" /\ Replace(e.i, e.s) /\ e.res = out'[2]
  \/ e.op = "into" /\ e.res = Trim(vec) /\ UNCHANGED vars
  \/ e.op = "sized" /\ e.res = Sized(vec, e.n) /\ UNCHANGED vars
  \/ e.op = "behind" /\ e.res = vec /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
