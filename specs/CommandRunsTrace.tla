--------------------------- MODULE CommandRunsTrace ---------------------------
(***************************************************************************)
(* Sessions of the commands of automata: what they print for the lines of  *)
(* their input, and how they list an automaton.                            *)
(***************************************************************************)
EXTENDS Automata, TraceBase
VARIABLE au      \* the automaton that is asked
vars == <<au>>
Fine == CASE Case.kind = "cfg" -> Built(OfCfg(Case.g))
          [] Case.kind = "pmcfg" -> OfPmcfg(Case.g)
          [] Case.kind = "tsa" -> [kind |-> "tsa", tr |-> Case.trans, init |-> NewTree(Case.init), fin |-> {}]
TInit == TraceInit /\ au = IF Case.what = "approx" THEN Approx(Case.chain[1], Fine) ELSE Fine
View(t) == <<Word(t), Scaled(Wt(t)), Ins(t)>>
Count(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Count(p, p[k]) = Count(q, p[k])
Light == \A k \in 1..Len(au.tr) : au.tr[k][2][1] <= Pow2(au.tr[k][2][2])
TreeView(st) == LET as == Sorted({b \in DOMAIN st.t : b # <<>>}) IN [j \in 1..Len(as) |-> <<as[j], st.t[as[j]], Scaled(Case.g.rules[st.t[as[j]][2]].w)>>]
\* what is printed for an accepted item
Shown(o, x) == /\ o.x = Scaled(x.w)
               /\ Has(o, "ts") => o.ts = [k \in 1..Len(x.r) |-> View(au.tr[x.r[k]])]
               /\ Has(o, "tree") => o.tree = TreeView(x.st)
InOrder(obs) == \A k \in 1..(Len(obs) - 1) : obs[k].x >= obs[k + 1].x
\* the n best runs of the word, or all of them
Best(word, n, obs) ==
  /\ Len(obs) <= n
  /\ n > 0 => LET min == IF Len(obs) < n \/ ~Light THEN 0 ELSE obs[Len(obs)].x
                  M == Runs(au, word, min)
              IN /\ \A k \in 1..Len(obs) : Cardinality({j \in 1..Len(obs) : obs[j] = obs[k]}) <= Cardinality({x \in M : Shown(obs[k], x)})
                 /\ IF Len(obs) < n THEN Len(obs) = Cardinality(M)
                    ELSE Light => Cardinality({k \in 1..Len(obs) : obs[k].x > min}) = Cardinality({x \in M : Scaled(x.w) > min})
                 /\ Light => InOrder(obs)
\* some of them
Some(word, n, wide, obs) ==
  IF wide THEN Best(word, n, obs)
  ELSE LET M == Runs(au, word, 0) IN
       /\ Len(obs) <= n
       /\ \A k \in 1..Len(obs) : Cardinality({j \in 1..Len(obs) : obs[j] = obs[k]}) <= Cardinality({x \in M : Shown(obs[k], x)})
       /\ Light => InOrder(obs)
Line(e, k) == LET ln == e.lines[k] o == e.out[k] n == IF e.n = -1 THEN 1 ELSE e.n IN
  /\ o.echo
  /\ IF e.beam = -1 THEN Best(ln.word, n, o.runs) ELSE Some(ln.word, n, ln.wide < e.beam, o.runs)
Step(e) ==
  CASE e.op = "recog" -> (e.rc = 0 /\ Len(e.out) = Len(e.lines) /\ \A k \in 1..Len(e.lines) : Line(e, k)) = TRUE /\ UNCHANGED au
    [] e.op = "print" -> /\ (e.rc = 0 /\ e.inits = 1 /\ e.other = 0) = TRUE
                         /\ SameBag(e.trans, [k \in 1..Len(au.tr) |-> <<Word(au.tr[k]), Scaled(Wt(au.tr[k]))>>]) = TRUE
                         /\ UNCHANGED au
    [] OTHER -> FALSE /\ UNCHANGED au
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
