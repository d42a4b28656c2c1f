---------------------------- MODULE GornTreeTrace ----------------------------
EXTENDS GornTree, TraceBase
vars == <<a, b, out>>
TInit == TraceInit /\ GInit(Case.a, Case.b)
\* what the event shows of the trees after the operation: by reference iteration, keys, values, len, is_empty, equality
Shows(e, x, y) ==
  LET ex == Entries(x) IN
  /\ e.a = ex /\ e.b = Entries(y)
  /\ e.keys = [i \in 1..Len(ex) |-> ex[i][1]] /\ e.values = [i \in 1..Len(ex) |-> ex[i][2]]
  /\ e.len = Len(ex) /\ e.empty = (ex = <<>>) /\ e.eq = (x = y)
Step(e) ==
  /\ \/ e.op = "insert" /\ Insert(e.k, e.v) /\ e.res = out'
     \/ e.op = "remove" /\ Remove(e.k) /\ e.res = out'
     \/ e.op = "get" /\ Same /\ e.res = Opt(a, e.k) /\ e.has = (e.k \in DOMAIN a)
     \/ e.op = "modify" /\ Modify(e.k, e.v) /\ e.res = out'
     \/ e.op = "entry" /\ OrInsert(e.k, e.v) /\ e.res = out'
     \/ e.op = "append" /\ Append_
     \/ e.op = "split" /\ SplitOff(e.k)
     \/ e.op = "swap" /\ Swap
     \/ e.op \in {"addall", "addallit"} /\ AddAll(e.v)
     \/ e.op = "clear" /\ Clear
     \/ e.op \in {"new", "clone", "collect", "cloned"} /\ Same
  /\ Shows(e, a', b')
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
