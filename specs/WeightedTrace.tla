------------------------------ MODULE WeightedTrace ------------------------------
EXTENDS Weighted, TraceBase
VARIABLES queue
vars == <<queue>>
Rev == Case.wt \in {"rev", "revf64"}
X == Case.confs[1]
Y == Case.confs[2]
RECURSIVE Spaced(_)
Spaced(u) == IF u = <<>> THEN "" ELSE IF Len(u) = 1 THEN ToString(u[1]) ELSE ToString(u[1]) \o " " \o Spaced(Tail(u))
Shown(x) == <<"Configuration:", "word:[" \o Spaced(x.word) \o "]", "weight:" \o ToString(x.weight), ToString(x.storage), "">>
TInit == TraceInit /\ queue = IF Case.kind = "conf" THEN Case.confs ELSE <<>>
Step(e) ==
  CASE e.op = "cmp" ->       \* all comparisons of the two configurations
         LET k == CmpConf(Rev, X, Y)
         IN /\ e.part = k /\ (Has(e, "ord") => e.ord = k)
            /\ e.lt = (k < 0) /\ e.le = (k <= 0) /\ e.gt = (k > 0) /\ e.ge = (k >= 0)
            /\ e.eq = SameConf(X, Y) /\ e.ne = ~SameConf(X, Y)
            /\ (SameConf(X, Y) => e.hash)
            /\ UNCHANGED vars
    [] e.op = "max" -> e.res = (IF CmpConf(Rev, X, Y) > 0 THEN X ELSE Y) /\ UNCHANGED vars
    [] e.op = "min" -> e.res = (IF CmpConf(Rev, X, Y) > 0 THEN Y ELSE X) /\ UNCHANGED vars
    [] e.op = "clone" -> e.res = X /\ UNCHANGED vars
    [] e.op = "push" -> queue' = Append(queue, e.arg)
    [] e.op = "pop" -> IF queue = <<>> THEN e.res = <<>> /\ UNCHANGED vars
                       ELSE e.res # <<>> /\ \E k \in Greatest(Rev, queue) : queue[k] = e.res[1] /\ queue' = Without(queue, k)
    [] e.op = "sort" -> e.res = Sorted(Rev, Case.confs) /\ UNCHANGED vars
    \* all different elements (in the sense of equality)
    [] e.op = "set" -> /\ e.res = Cardinality({<<Case.confs[k].word, Case.confs[k].storage>> : k \in 1..Len(Case.confs)})
                       /\ UNCHANGED vars
    \* an item with a weight is compared by the weight alone
    [] e.op = "icmp" -> LET k == CmpW(Rev, Case.a, Case.b)
                        IN /\ e.part = k /\ e.ord = k
                           /\ e.lt = (k < 0) /\ e.le = (k <= 0) /\ e.gt = (k > 0) /\ e.ge = (k >= 0) /\ e.eq = (k = 0) /\ e.ne = (k # 0)
                           /\ e.weight = Case.b /\ e.clone = <<Case.i, Case.b>> /\ UNCHANGED vars
    [] e.op = "imax" -> e.res = (IF CmpW(Rev, Case.a, Case.b) > 0 THEN Case.a ELSE Case.b) /\ UNCHANGED vars
    [] e.op = "print" -> e.res = Shown(e.arg) /\ UNCHANGED vars
    [] e.op = "rcmp" -> LET k == Cmp(Case.b, Case.a)
                        IN /\ e.part = k /\ (Has(e, "ord") => e.ord = k)
                           /\ e.lt = (k < 0) /\ e.le = (k <= 0) /\ e.gt = (k > 0) /\ e.ge = (k >= 0) /\ e.eq = (k = 0) /\ UNCHANGED vars
    [] e.op = "arith" -> e.res = Arith(e.what, Case.a, Case.b) /\ e.assigned = e.res /\ UNCHANGED vars
    [] e.op = "inner" -> e.res = Case.a /\ e.unwrapped = Case.a /\ e.text = Case.a /\ e.json = Case.a /\ e.bin = Case.a /\ e.shown /\ UNCHANGED vars
    [] e.op = "consts" -> e.zero = 0 /\ e.one = 1 /\ e.is_zero = (Case.a = 0) /\ UNCHANGED vars
    [] e.op = "parse" -> e.same /\ UNCHANGED vars
    [] e.op = "factors" -> Factors(e.res, Case.ln, Case.n, 2) /\ UNCHANGED vars
    [] e.op = "unit" -> e.res = Case.n /\ UNCHANGED vars
    [] e.op = "zero" -> e.len = Case.n /\ e.zero /\ UNCHANGED vars
    [] OTHER -> FALSE /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
