----------------------------- MODULE SearchTrace -----------------------------
EXTENDS Search, TraceBase
Item(n) == <<n, Case.w[n + 1]>>
Items(ns) == [i \in 1..Len(ns) |-> Item(ns[i])]
Perms(s) == {[i \in Idx(s) |-> s[p[i]]] : p \in {f \in [Idx(s) -> Idx(s)] : \A i, j \in Idx(s) : f[i] = f[j] => i = j}}
\* Agenda's Canon for starting boxes needs kind, which TInit fixes first.
\* The order among the initial nodes is not part of the guarantee; nodes given to a limited agenda are pushed in order.
Starts == IF Case.kind = "limited" THEN PushedAll(<<>>, Items(Case.start)) ELSE Perms(Items(Case.start))
TInit == /\ TraceInit
         /\ kind = [d |-> Case.kind, cap |-> Case.cap, beta |-> 0, mul |-> "add"]
         /\ box \in {Canon(s) : s \in Starts} /\ out = <<"new">>
         /\ succ = [n \in 0..(Len(Case.succ) - 1) |-> Items(Case.succ[n + 1])]
         /\ uniq = Case.uniq /\ seen = {}
Step(e) == \/ e.op = "next" /\ e.res # <<>> /\ e.res[1] \in DOMAIN succ /\ Yield(Item(e.res[1]))
           \/ e.op = "next" /\ e.res = <<>> /\ End
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED svars
TSpec == TInit /\ [][TNext]_<<svars, c, l, bad>>
=============================================================================
