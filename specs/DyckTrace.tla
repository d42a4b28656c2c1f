------------------------------ MODULE DyckTrace ------------------------------
EXTENDS Dyck, TraceBase
vars == <<stack, dead>>
TInit == TraceInit /\ DInit
Step(e) == e.op = "rec" /\ e.res = Run(<<>>, e.w) /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
