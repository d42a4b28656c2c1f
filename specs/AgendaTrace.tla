---------------------------- MODULE AgendaTrace ----------------------------
EXTENDS Agenda, TraceBase

Bag(s) == [x \in {s[i] : i \in Idx(s)} |-> Cardinality({i \in Idx(s) : s[i] = x})]
Opt(s) == IF s = <<>> THEN {} ELSE {s[1]}

\* what every event reports about the agenda after the action
Seen(e, s) == /\ e.len = Len(s)
              /\ e.empty = (s = <<>>)
              /\ IF s = <<>> THEN e.peek = <<>>
                 ELSE Len(e.peek) = 1 /\ \E i \in Next_(s) : e.peek[1] = s[i]

Step(e) ==
  \/ /\ e.op = "push" /\ Push(e.x) /\ Seen(e, box')
     /\ Has(e.res, "evicted") => e.res.evicted = (IF out'[1] = "evicted" THEN <<out'[2]>> ELSE <<>>)
     /\ Has(e.res, "accepted") => e.res.accepted = (out'[1] # "refused")
  \/ e.op = "extend" /\ Extend(e.xs) /\ Seen(e, box')
  \/ e.op = "pop" /\ Pop /\ Seen(e, box')
     /\ e.res = (IF out'[1] = "popped" THEN <<out'[2]>> ELSE <<>>)
  \/ e.op = "clear" /\ Clear /\ Seen(e, box')
  \/ e.op \in {"clone", "noop"} /\ Same /\ Seen(e, box')
  \/ e.op = "drain" /\ Same /\ Bag(e.all) = Bag(box)

TInit == TraceInit /\ Init([d |-> Case.kind, cap |-> Case.cap, beta |-> Case.beta, mul |-> Case.mul], Case.init)
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED <<kind, box, out>>
TSpec == TInit /\ [][TNext]_<<kind, box, out, c, l, bad>>
=============================================================================
