----------------------------- MODULE RuleValueTrace -----------------------------
EXTENDS RuleValue, TraceBase
VARIABLES dict
vars == <<dict>>
P == Case.kind = "pmcfg"
R == Case.rules
TInit == TraceInit /\ dict = <<>>
RECURSIVE Flat(_)
Flat(cs) == IF cs = <<>> THEN <<>> ELSE Head(cs) \o Flat(Tail(cs))
Nondec(s) == \A k \in 1..Len(s) - 1 : CmpSays(P, s[k], s[k + 1]) <= 0
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in {s[k] : k \in 1..Len(s)} : Cardinality({k \in 1..Len(s) : s[k] = x}) = Cardinality({k \in 1..Len(t) : t[k] = x})
Step(e) ==
  CASE e.op = "put" -> e.res = Get(dict, e.rule) /\ dict' = Put(dict, e.rule, e.val)
    [] e.op = "get" -> e.res = Get(dict, e.rule) /\ UNCHANGED vars
    [] e.op = "del" -> e.res = Get(dict, e.rule) /\ dict' = Del(dict, e.rule)
    [] e.op = "len" -> e.res = Cardinality(DOMAIN dict) /\ UNCHANGED vars
    [] e.op = "cmp" -> LET r == R[e.i] s == R[e.j] k == CmpSays(P, r, s) IN
         /\ e.eq = Same(r, s) /\ e.ne = ~Same(r, s) /\ (Same(r, s) => e.hash)
         /\ e.ord = CmpRule(P, r, s) /\ e.part = e.ord
         /\ UNCHANGED vars
    [] e.op = "set" -> e.res = Cardinality({Says(R[k]) : k \in 1..Len(R)}) /\ UNCHANGED vars
    [] e.op = "sort" -> SameBag(e.res, R) /\ Nondec(e.res) /\ UNCHANGED vars
    [] e.op = "clone" -> e.res = R /\ UNCHANGED vars
    [] e.op = "map" -> e.res = MapRule(Case.map, R[e.i]) /\ UNCHANGED vars
    \* grammars compare by initial nonterminals and rules
    [] e.op = "gram" -> e.res = (e.a = e.b /\ Len(e.x) = Len(e.y) /\ \A k \in 1..Len(e.x) : Same(R[e.x[k]], R[e.y[k]])) /\ UNCHANGED vars
    \* serialised and read back, the weight included
    [] e.op = "json" -> e.res = R[e.i] /\ UNCHANGED vars
    [] e.op = "bin" -> e.res = R[e.i] /\ UNCHANGED vars
    [] e.op = "comp" -> LET x == R[e.i].comp IN
         /\ e.len = Len(x) /\ e.index = x /\ e.iter = x /\ e.owned = x /\ e.from = x
         /\ e.mutated = [k \in 1..Len(x) |-> Append(x[k], <<"T", 0>>)]
         /\ UNCHANGED vars
    [] e.op = "letters" -> LET x == Flat(R[e.i].comp) IN
         /\ Len(e.isvar) = Len(x) /\ Len(e.ist) = Len(x) /\ Len(e.un) = Len(x)
         /\ \A k \in 1..Len(x) : e.isvar[k] = (x[k][1] = "V") /\ e.ist[k] = (x[k][1] = "T") /\ e.un[k] = Tail(x[k])
         /\ UNCHANGED vars
    [] OTHER -> FALSE /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
