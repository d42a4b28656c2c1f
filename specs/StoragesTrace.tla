----------------------------- MODULE StoragesTrace -----------------------------
EXTENDS Storages, TraceBase
VARIABLES regs
vars == <<regs>>
Tree == Case.kind = "tree"
NewReg == IF Tree THEN NewTree(Case.root) ELSE Case.root
TInit == TraceInit /\ regs = [k \in 1..3 |-> NewReg]
Show(s) == IF Tree THEN LET as == Sorted(DOMAIN s.t) IN [t |-> [k \in 1..Len(as) |-> <<as[k], s.t[as[k]]>>], at |-> s.at] ELSE s
ShowAll(q) == [k \in 1..Len(q) |-> Show(q[k])]
\* q: the outcome (<<>>: refused, the storage comes back as it was)
Result(e, q) == /\ e.ok = (q # <<>>)
                /\ regs' = IF q = <<>> THEN [regs EXCEPT ![e.to] = regs[e.from]] ELSE [regs EXCEPT ![e.to] = q[1]]
                /\ e.regs = ShowAll(regs')
Q(q) == Result(E, q)
S == regs[E.from]
\* an instruction gives the list of its outcomes; the same when symbols are numbered
Instr(e, q) == /\ e.res = ShowAll(q) /\ e.int = ShowAll(q)
               /\ regs' = IF q = <<>> THEN regs ELSE [regs EXCEPT ![e.to] = q[1]]
               /\ e.regs = ShowAll(regs')
Conf(cf) == [word |-> cf.word, weight |-> cf.weight, storage |-> Show(cf.storage)]
Same == UNCHANGED regs
TreeStep(e) ==
  CASE e.op = "push" -> Q(PushAt(S, e.n, e.a))
    [] e.op = "pushwith" -> Q(PushAt(S, e.n, e.a)) /\ e.called = e.ok
    [] e.op = "pushnext" -> Q(<<PushNext(S, e.a)>>)
    [] e.op = "up" -> Q(UpTo(S, e.n))
    [] e.op = "down" -> Q(Down(S))
    [] e.op = "set" -> Q(<<SetVal(S, e.a)>>)
    [] e.op = "map" -> Q(<<MapTree(S, e.a)>>)
    [] e.op = "number" -> Q(<<S>>)
    [] e.op = "ups" -> e.res = ShowAll(Ups(S)) /\ Same
    [] e.op = "cur" -> e.res = Cur(S) /\ e.bottom = (S.at = <<>>) /\ Same
    [] e.op = "all" -> e.res = AllBelow(S, e.a) /\ Same
    [] e.op = "instr" -> Instr(e, ApplyTree(e.i, S)) /\ e.text = TreeInstrText(e.i)
    [] e.op = "text" -> e.res = TreeText(S) /\ Same
    [] e.op = "trans" -> LET q == ApplyTransition(e.tr, [word |-> e.word, weight |-> e.weight, storage |-> S], LAMBDA x : ApplyTree(e.tr.instr, x))
                         IN e.res = [k \in 1..Len(q) |-> Conf(q[k])] /\ Same
    [] OTHER -> FALSE /\ Same
\* the pushdown of util
PdStep(e) ==
  CASE e.op = "push" -> Q(<<Append(S, e.a)>>)
    [] e.op = "set" -> Q(IF S = <<>> THEN <<>> ELSE <<SetTop(S, e.a)>>)
    [] e.op = "pop" -> Q(IF S = <<>> THEN <<>> ELSE <<Pop(S)>>) /\ (S # <<>> => e.res = <<Top(S)>>)
    [] e.op = "map" -> Q(<<[k \in 1..Len(S) |-> S[k] + e.a]>>)
    [] e.op = "number" -> Q(<<S>>)
    [] e.op = "read" -> /\ e.peek = (IF S = <<>> THEN <<>> ELSE <<Top(S)>>) /\ e.peekref = e.peek
                        /\ e.empty = (S = <<>>) /\ e.vec = S /\ e.iter = S /\ e.into = S /\ e.back = S /\ Same
    [] e.op = "new" -> e.res = <<>> /\ e.default = <<>> /\ e.isempty /\ Same
    [] OTHER -> FALSE /\ Same
\* the pushdown of the automata
PushStep(e) ==
  CASE e.op = "replace" -> Q(Replace(S, e.old, e.new))
    [] e.op = "instr" -> Instr(e, Replace(S, e.old, e.new)) /\ e.text = ReplaceText(e.old, e.new)
    [] e.op = "map" -> Q(<<[k \in 1..Len(S) |-> S[k] + e.a]>>)
    [] e.op = "number" -> Q(<<S>>)
    [] e.op = "read" -> /\ S # <<>> => e.cur = Top(S) /\ e.empty = S[1] /\ e.text = PushText(S)
                        /\ e.bottom = (Len(S) = 1) /\ e.iter = S /\ Same
    [] e.op = "new" -> e.res = <<e.a, e.b>> /\ Same
    [] e.op = "trans" -> LET q == ApplyTransition(e.tr, [word |-> e.word, weight |-> e.weight, storage |-> S], LAMBDA x : Replace(x, e.tr.old, e.tr.new))
                         IN e.res = [k \in 1..Len(q) |-> Conf(q[k])] /\ Same
    [] OTHER -> FALSE /\ Same
Step(e) ==
  \* the registers against each other: equal exactly if the same, and a comparison that agrees
  IF e.op = "eq" THEN LET n == 3 IN
       /\ \A i, j \in 1..n : e.eq[i][j] = (regs[i] = regs[j]) /\ (e.cmp[i][j] = 0) = (regs[i] = regs[j]) /\ e.cmp[i][j] = -e.cmp[j][i] /\ e.part[i][j] = e.cmp[i][j]
       /\ \A i, j, k \in 1..n : e.cmp[i][j] <= 0 /\ e.cmp[j][k] <= 0 => e.cmp[i][k] <= 0
       /\ (Has(e, "hash") => \A i, j \in 1..n : regs[i] = regs[j] => e.hash[i][j])
       /\ Same
  ELSE CASE Tree -> TreeStep(e) [] Case.kind = "pd" -> PdStep(e) [] OTHER -> PushStep(e)
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
