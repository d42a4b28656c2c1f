-------------------------- MODULE TransitionValueTrace --------------------------
EXTENDS TransitionValue, TraceBase
VARIABLES wt, st, log, ord
vars == <<wt, st, log, ord>>
R == Case.trans
N == Len(R)
TInit == TraceInit /\ wt = <<>> /\ st = <<>> /\ log = <<>> /\ ord = <<>>
Places(x) == {k \in 1..N : R[k].ins = x}
\* the order that the instructions were seen to have
C(x, y) == ord[CHOOSE k \in Places(x) : TRUE][CHOOSE k \in Places(y) : TRUE]
Total(m) == /\ \A j, k \in 1..N : m[j][k] = -m[k][j] /\ (m[j][k] = 0) = (R[j].ins = R[k].ins)
            /\ \A j, k, h \in 1..N : m[j][k] <= 0 /\ m[k][h] <= 0 => m[j][h] <= 0
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in {s[k] : k \in 1..Len(s)} : Cardinality({k \in 1..Len(s) : s[k] = x}) = Cardinality({k \in 1..Len(t) : t[k] = x})
Ordered(s, sign) == \A k \in 1..Len(s) - 1 : sign * CmpTransition(s[k], s[k + 1], C) <= 0
\* the filed transitions are numbered forms of the given ones under some one-to-one tables: each cell holds those of one key
Shapes(ts) == [k \in 1..Len(ts) |-> <<ts[k].w, Len(ts[k].word), Shape(ts[k].ins)>>]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
KeysOf(ts) == {Key(ts[k].ins) : k \in 1..Len(ts)}
Held == IF Case.kind = "pd" THEN Merged(R) ELSE R
Filed(cells) ==
  /\ Cardinality({cells[k][1] : k \in 1..Len(cells)}) = Len(cells)
  /\ Len(cells) = Cardinality(KeysOf(R))
  /\ SameBag(Shapes(Concat([k \in 1..Len(cells) |-> cells[k][2]])), Shapes(Held))
  /\ \A k \in 1..Len(cells) : LET v == cells[k][2] IN
       /\ v # <<>>
       /\ \A j \in 1..Len(v) : Key(v[j].ins) = cells[k][1]
       \* the heaviest first
       /\ \A j \in 1..Len(v) - 1 : v[j].w >= v[j + 1].w
       \* some key of the given transitions has exactly these
       /\ \E x \in KeysOf(R) : SameBag(Shapes(v), Shapes(SelectSeq(Held, LAMBDA t : Key(t.ins) = x)))
Step(e) ==
  CASE e.op = "instr" -> (Len(e.res) = N /\ Total(e.res)) /\ ord' = e.res /\ UNCHANGED <<wt, st, log>>
    [] e.op = "cmp" -> LET t == R[e.i] u == R[e.j] IN
         (/\ e.eq = Same(t, u) /\ e.ne = ~Same(t, u)
          /\ e.ord = CmpTransition(t, u, C) /\ e.part = e.ord) = TRUE /\ UNCHANGED vars
    [] e.op = "hash" -> (\A j, k \in 1..N : Same(R[j], R[k]) => e.res[j][k]) = TRUE /\ UNCHANGED vars
    [] e.op = "set" -> e.res = Cardinality({Says(R[k]) : k \in 1..N}) /\ UNCHANGED vars
    [] e.op = "sort" -> (SameBag(e.res, R) /\ Ordered(e.res, 1)) = TRUE /\ UNCHANGED vars
    [] e.op = "heap" -> (SameBag(e.res, R) /\ Ordered(e.res, -1)) = TRUE /\ UNCHANGED vars
    [] e.op = "clone" -> e.res = R /\ UNCHANGED vars
    [] e.op = "number" -> LET t == R[e.k] IN
         /\ NumbersTransition(wt, st, t, e.res) = TRUE
         /\ wt' = Grown(wt, t.word, e.res.word)
         /\ st' = Grown(st, Symbols(t.ins), Symbols(e.res.ins))
         /\ log' = Append(log, <<t, e.res>>)
         /\ UNCHANGED ord
    [] e.op = "back" -> e.res = log[e.k][1] /\ e.res = BackTransition(wt, st, log[e.k][2]) /\ UNCHANGED vars
    [] e.op = "alike" -> (Len(e.res) = Len(log) /\ \A k \in 1..Len(log) : e.res[k] = Same(log[e.k][1], log[k][1])) = TRUE /\ UNCHANGED vars
    [] e.op = "list" -> SameBag(e.res, Held) /\ UNCHANGED vars
    [] e.op = "files" -> Filed(e.res) = TRUE /\ UNCHANGED vars
    [] OTHER -> FALSE /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
