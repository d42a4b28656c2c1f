--------------------------- MODULE AutomatonTextTrace ---------------------------
EXTENDS AutomatonText, TraceBase
VARIABLES got     \* what the code read: <<>> or <<automaton>>
vars == <<lines, form, initial, finals, trs, status, got>>
F == [kind |-> Case.form, sym |-> Case.sym, wt |-> Case.wt]
TInit == TraceInit /\ RInit(<<>>, F) /\ got = <<>>
\* what the specification reads: a whole automaton, a transition or an instruction
Only(r) == [ini |-> <<>>, fin |-> <<>>, trs |-> IF r.s = "ok" THEN <<r.v>> ELSE <<>>, st |-> r.s]
Reading(t) == CASE Case.what = "aut" -> Read(t, F)
                [] Case.what = "trans" -> Only(TransLine(t, F.kind, F.sym, F.wt))
                [] Case.what = "instr" -> LET r == Instr(t, F.kind, F.sym)
                                         IN Only(IF r.s = "ok" THEN Ok([word |-> <<>>, ins |-> r.v, w |-> One], 0, FALSE) ELSE r)
Is(t, g) == t.word = g.word /\ t.ins = g.ins /\ t.w = g.w.m
Count(ts, t, same(_, _)) == Cardinality({k \in 1..Len(ts) : same(t, ts[k])})
IsT(t, u) == t = u
Matches(r, g) == /\ r.ini = g.ini /\ Len(r.trs) = Len(g.trs)
                 /\ \A k \in 1..Len(r.trs) : Count(g.trs, r.trs[k], Is) = Count(r.trs, r.trs[k], IsT)
Set(q) == {q[k] : k \in 1..Len(q)}
Conforms(res) == LET r == Reading(Case.text)
                 IN CASE r.st = "ok" -> Len(res) = 1 /\ Matches(r, res[1])
                      [] r.st = "fail" -> res = <<>>
                      [] r.st = "free" -> TRUE
\* the printed text means, by the specification, what the text that was read means (final states included)
CanPrint(r) == IF Case.what = "aut" THEN Printable(r.ini[1], IF r.fin = <<>> THEN <<>> ELSE r.fin[1], r.trs)
               ELSE \A k \in 1..Len(r.trs) : \A m \in 1..Len(r.trs[k].word) : Tame(r.trs[k].word[m])
Printed(t) == LET r == Reading(Case.text) p == Reading(t)
              IN IF r.st # "ok" \/ got = <<>> THEN TRUE
                 ELSE IF ~CanPrint(r) THEN TRUE
                 ELSE CASE p.st = "ok" -> /\ Matches(p, got[1])
                                          /\ (r.fin # <<>> => (p.fin # <<>> /\ Set(p.fin[1]) = Set(r.fin[1])))
                        [] p.st = "fail" -> FALSE
                        [] p.st = "free" -> TRUE
Near(t, u) == t.word = u.word /\ t.ins = u.ins /\ (IF Case.wt = "log" THEN (t.w.m - u.w.m) \in -1..1 /\ (t.w.l - u.w.l) \in -1..1 ELSE t.w = u.w)
Again(g, h) == /\ g.ini = h.ini /\ Len(g.trs) = Len(h.trs)
               /\ \A k \in 1..Len(g.trs) : Count(g.trs, g.trs[k], Near) = Count(h.trs, g.trs[k], Near)
Reread(res) == LET r == Reading(Case.text)
               IN IF r.st # "ok" THEN TRUE ELSE IF ~CanPrint(r) THEN TRUE ELSE Len(res) = 1 /\ Again(got[1], res[1])
Step(e) ==
  \/ /\ e.op = "read" /\ Conforms(e.res) = TRUE
     /\ got' = e.res /\ UNCHANGED rvars
  \/ /\ e.op = "print" /\ got # <<>> /\ Printed(e.text) = TRUE
     /\ UNCHANGED vars
  \/ /\ e.op = "reread" /\ got # <<>> /\ Reread(e.res) = TRUE
     /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
