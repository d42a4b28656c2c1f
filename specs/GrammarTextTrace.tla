--------------------------- MODULE GrammarTextTrace ---------------------------
EXTENDS GrammarText, TraceBase
VARIABLES got     \* what the code read: <<>> or <<grammar>>
vars == <<lines, kind, initial, rules, status, got>>
Whole(k) == k \in {"cfg", "pmcfg", "lcfrs"}
TInit == TraceInit /\ RInit(<<>>, Case.kind) /\ got = <<>>
RECURSIVE SameRules(_, _, _)
SameRule(r, g) == r.head = g.head /\ r.tail = g.tail /\ r.comp = g.comp /\ (r.w = g.w.m)
SameRules(rs, gs, i) == IF i > Len(rs) THEN TRUE ELSE SameRule(rs[i], gs[i]) /\ SameRules(rs, gs, i + 1)
Matches(r, g) == /\ Elems(r.initial) = Elems(g.initial) /\ (Cardinality(Elems(r.initial)) = Len(r.initial) => Len(r.initial) = Len(g.initial))
                 /\ Len(r.rules) = Len(g.rules) /\ SameRules(r.rules, g.rules, 1)
\* the reading that the specification assigns to a text
Reading(t, k) == IF Whole(k) THEN Read(t, k)
                 ELSE LET r == Rule(t, IF k = "cfgrule" THEN "cfg" ELSE "pmcfg")
                      IN [s |-> r.s, initial |-> <<>>, rules |-> IF r.s = "ok" THEN <<r.v>> ELSE <<>>]
Conforms(t, k, res) == LET r == Reading(t, k)
                       IN CASE r.s = "ok" -> Len(res) = 1 /\ Matches(r, res[1])
                            [] r.s = "fail" -> res = <<>>
                            [] r.s = "free" -> TRUE
SameW(x, y, wt) == IF wt = "log" THEN (x.m - y.m) \in -1..1 /\ (x.l - y.l) \in -1..1 ELSE x.b = y.b
SameG(x, y, wt) == /\ x.initial = y.initial /\ Len(x.rules) = Len(y.rules)
                   /\ \A i \in 1..Len(x.rules) : /\ x.rules[i].head = y.rules[i].head /\ x.rules[i].tail = y.rules[i].tail
                                                 /\ x.rules[i].comp = y.rules[i].comp /\ SameW(x.rules[i].w, y.rules[i].w, wt)
Step(e) ==
  \/ /\ e.op = "read" /\ Conforms(Case.text, Case.kind, e.res) = TRUE
     /\ got' = e.res /\ UNCHANGED rvars
  \* the printed text means, by the specification, what had been read; weights have more digits than the model has
  \/ /\ e.op = "print" /\ got # <<>>
     /\ LET r == Reading(e.text, Case.kind)
        IN (CASE r.s = "ok" -> Matches(r, got[1]) [] r.s = "fail" -> FALSE [] r.s = "free" -> TRUE) = TRUE
     /\ UNCHANGED vars
  \/ /\ e.op = "reread" /\ got # <<>> /\ Len(e.res) = 1 /\ SameG(got[1], e.res[1], Case.wt) = TRUE
     /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
