----------------------------- MODULE AutomataTrace -----------------------------
(* What an automaton of the real code lists, recognises, approximates. *)
EXTENDS Automata, TraceBase
VARIABLES au,    \* the automaton asked (for case.what = "approx": the approximation)
          orig   \* the original one
vars == <<au, orig>>
Fine == CASE Case.kind = "cfg" -> Built(OfCfg(Case.g))
          [] Case.kind = "pmcfg" -> OfPmcfg(Case.g)
          [] Case.kind = "pda" -> Built([kind |-> "pda", tr |-> Case.trans, init |-> Case.init, fin |-> {}])
          [] Case.kind = "tsa" -> [kind |-> "tsa", tr |-> Case.trans, init |-> NewTree(Case.init), fin |-> {}]
          [] Case.kind = "fsa" -> [kind |-> "fsa", tr |-> Case.trans, init |-> Case.init, fin |-> Rng(Case.fin)]
RECURSIVE Coarsened(_, _)
Coarsened(a, k) == IF k > Len(Case.chain) THEN <<a>> ELSE <<a>> \o Coarsened(Approx(Case.chain[k], a), k + 1)
TInit == /\ TraceInit
         /\ orig = Fine
         /\ au = IF Case.what = "approx" THEN Approx(Case.chain[1], orig) ELSE orig

Show(st) == IF DOMAIN st = {"t", "at"} THEN LET as == Sorted(DOMAIN st.t) IN [t |-> [k \in 1..Len(as) |-> <<as[k], st.t[as[k]]>>], at |-> st.at] ELSE st
ShowOf(a, st) == IF a.kind = "tsa" THEN Show(st) ELSE st
View(t) == <<Word(t), Scaled(Wt(t)), Ins(t)>>
Views(tr) == [k \in 1..Len(tr) |-> View(tr[k])]
Count(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Count(p, p[k]) = Count(q, p[k])
RunView(a, x) == [k \in 1..Len(x.r) |-> View(a.tr[x.r[k]])]
Light(a) == \A k \in 1..Len(a.tr) : a.tr[k][2][1] <= Pow2(a.tr[k][2][2])

\* the observed results obs against the set M of accepting items, of all if the search came to its end, of the best otherwise
Fits(a, o, x) == RunView(a, x) = o.ts /\ ShowOf(a, x.st) = o.st /\ Measured(o.x, x.w) /\ o.rest = <<>>
InOrder(obs) == \A k \in 1..(Len(obs) - 1) : obs[k].x >= obs[k + 1].x
Found(a, e, light) ==
  LET obs == e.runs
      min == IF e.end THEN 0 ELSE obs[Len(obs)].x
      M == Runs(a, e.word, min)
      fit == [k \in 1..Len(obs) |-> {x \in M : Fits(a, obs[k], x)}]
  IN /\ e.end \/ Len(obs) = e.lim
     /\ \A k \in 1..Len(obs) : Cardinality({j \in 1..Len(obs) : obs[j].ts = obs[k].ts}) <= Cardinality(fit[k])
     /\ IF e.end THEN Len(obs) = Cardinality(M) ELSE Cardinality({k \in 1..Len(obs) : obs[k].x > min}) = Cardinality({x \in M : Scaled(x.w) > min})
     /\ light => InOrder(obs)
\* with a beam: some of them
Fewer(a, e) ==
  LET obs == e.runs
      M == Runs(a, e.word, IF e.end THEN 0 ELSE obs[Len(obs)].x)
      b == Beam(a, e.word, e.beam, {Start(a)}, <<>>)
  IN /\ \A k \in 1..Len(obs) : Cardinality({j \in 1..Len(obs) : obs[j].ts = obs[k].ts}) <= Cardinality({x \in M : Fits(a, obs[k], x)})
     /\ Light(a) => InOrder(obs)
     /\ e.end /\ e.wide => Len(obs) = Cardinality(M)
     /\ e.end /\ e.exact => b.tie \/ (Len(obs) = Len(b.out) /\ \A k \in 1..Len(obs) : Fits(a, obs[k], b.out[k]))

\* a sequence of transitions from the initial storage
RECURSIVE RunFrom(_, _, _)
RunFrom(a, st, ins) == IF ins = <<>> THEN <<st>> ELSE LET q == Succ(a.kind, Head(ins), st) IN IF q = <<>> THEN <<>> ELSE RunFrom(a, q[1], Tail(ins))
InsOf(ts) == [k \in 1..Len(ts) |-> ts[k][3]]
\* all sequences of original transitions that a sequence of approximate ones stands for: their number, and whether one is among them
Pre(t) == {k \in 1..Len(orig.tr) : LET s == Case.chain[1] u == ApproxTr(s, orig.tr[k]) IN Word(u) = t[1] /\ Ins(u) = t[3]}
RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE Head(q) * Product(Tail(q))
BackOk(o) ==
  LET P == [k \in 1..Len(o.ts) |-> LET p == Pre(o.ts[k]) IN Listed({<<i, View(orig.tr[i])>> : i \in p})]
      Times(ts) == Product([k \in 1..Len(ts) |-> Cardinality({i \in 1..Len(P[k]) : P[k][i][2] = ts[k]})])
  IN /\ Len(o.back) = Product([k \in 1..Len(o.ts) |-> Len(P[k])])
     /\ \A j \in 1..Len(o.back) : Len(o.back[j]) = Len(o.ts) /\ LET n == Times(o.back[j]) IN n > 0 /\ Count(o.back, o.back[j]) = n
Same == UNCHANGED vars
Recog(e) ==
  LET M == Runs(au, e.word, IF e.end THEN 0 ELSE e.runs[Len(e.runs)].x) IN
  /\ Found(au, e, Light(au))
  /\ \A k \in 1..Len(e.runs) :
       LET o == e.runs[k] IN
       /\ o.check = <<[x |-> o.x, st |-> o.st, rest |-> <<>>, same |-> TRUE]>>
       /\ (Has(o, "tree") => LET T == TreeOf((CHOOSE x \in M : RunView(au, x) = o.ts).st) as == Sorted(DOMAIN T)
                             IN o.tree = [j \in 1..Len(as) |-> <<as[j], T[as[j]]>>])
       /\ (Has(o, "back") => BackOk(o))
  \* an approximation loses nothing
  /\ Case.what = "approx" /\ e.end => \A x \in Runs(orig, e.word, 0) : \E k \in 1..Len(e.runs) : e.runs[k].x >= Scaled(x.w)

Storage(v) == IF orig.kind = "tsa" THEN [t |-> [b \in {v.t[k][1] : k \in 1..Len(v.t)} |-> v.t[CHOOSE k \in 1..Len(v.t) : v.t[k][1] = b][2]], at |-> v.at] ELSE v
Step(e) ==
  CASE e.op = "list" -> SameBag(e.trans, Views(au.tr)) /\ e.init = ShowOf(au, au.init) /\ Same
    [] e.op = "recog" -> Recog(e) = TRUE /\ Same
    [] e.op = "beam" -> Fewer(au, e) = TRUE /\ Same
    [] e.op = "check" -> LET q == RunFrom(au, au.init, InsOf(e.ts)) IN
                         /\ Len(e.res) = Len(q)
                         /\ \A k \in 1..Len(q) : e.res[k].st = ShowOf(au, q[k]) /\ e.res[k].rest = <<>> /\ e.res[k].ts = e.ts
                         /\ Same
    [] e.op = "c2f" -> LET cs == Coarsened(orig, 1) IN Found(orig, e, \A k \in 1..Len(cs) : Light(cs[k])) = TRUE /\ Same
    [] e.op = "untrans" -> LET P == Pre(e.t) IN /\ P # {} /\ Len(e.back) = Cardinality(P)
                                                /\ \A k \in 1..Len(e.back) : Count(e.back, e.back[k]) = Cardinality({i \in P : View(orig.tr[i]) = e.back[k]})
                                                /\ Same
    [] e.op = "one" -> e.i = ApproxIns(Case.chain[1], e.t[3]) /\ Same
    [] e.op = "storage" -> e.to = ApproxStorage(Case.chain[1], Storage(e.of)) /\ Same
    [] OTHER -> FALSE /\ Same
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
