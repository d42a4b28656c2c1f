----------------------------- MODULE TraceBase -----------------------------
(* Cases recorded from the real code: one JSON object per line, its events in the field ev. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c,    \* the case
          l,    \* the next event
          bad   \* TRUE once an event was rejected
Case == Cases[c]
Ev == Case.ev
E == Ev[l]
Has(r, f) == f \in DOMAIN r
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ bad = FALSE
More == ~bad /\ l <= Len(Ev)
\* consumes one event
Consume == l' = l + 1 /\ c' = c /\ bad' = FALSE /\ (l = Len(Ev) => PrintT(<<"ACCEPT", c>>))
Reject == l' = l /\ c' = c /\ bad' = TRUE /\ PrintT(<<"REJECT", c, l>>)
=============================================================================
