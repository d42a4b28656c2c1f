--------------------------- MODULE TransitionValueMC ---------------------------
(* Transitions are numbered one after the other; the tables only grow.  A   *)
(* queue of transitions gives the heaviest first.                           *)
EXTENDS TransitionValue, Storages
CONSTANTS Syms, Weights, MaxWord, MaxSide, Rounds
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
Instrs == {<<"R", a, b>> : a \in Upto(Syms, MaxSide), b \in Upto(Syms, MaxSide)}
   \cup {<<"Down", c, o, x>> : c \in Syms, o \in Syms, x \in Syms}
   \cup {<<"Push", n, c, x>> : n \in {0, 1}, c \in Syms, x \in Syms}
   \cup {<<"F", p, q>> : p \in Syms, q \in Syms}
Transitions == {[word |-> u, ins |-> i, w |-> w] : u \in Upto(Syms, MaxWord), i \in Instrs, w \in Weights}
VARIABLES wt, st, log
vars == <<wt, st, log>>
Init == wt = <<>> /\ st = <<>> /\ log = <<>>
\* symbols not yet in a table get the next numbers in order of appearance
RECURSIVE Fill(_, _)
Fill(tab, a) == IF a = <<>> THEN tab ELSE
   Fill(IF Head(a) \in DOMAIN tab THEN tab ELSE [x \in DOMAIN tab \cup {Head(a)} |-> IF x = Head(a) THEN Cardinality(DOMAIN tab) ELSE tab[x]], Tail(a))
Coded(tab, a) == [k \in 1..Len(a) |-> tab[a[k]]]
Number == \E t \in Transitions :
   LET w1 == Fill(wt, t.word) s1 == Fill(st, Symbols(t.ins)) IN
   /\ wt' = w1 /\ st' = s1
   /\ log' = Append(log, <<t, [word |-> Coded(w1, t.word), ins |-> With(t.ins, Coded(s1, Symbols(t.ins))), w |-> t.w]>>)
Next == Len(log) < Rounds /\ Number
Spec == Init /\ [][Next]_vars
Logged == {log[k] : k \in 1..Len(log)}
\* the relational reading of numbering admits what the tables do, at any later time
Admitted == \A p \in Logged : NumbersTransition(wt, st, p[1], p[2])
\* nothing is lost: also after the tables have grown
Returns == \A p \in Logged : BackTransition(wt, st, p[2]) = p[1]
\* numbered transitions say the same exactly if the transitions do
Faithful == \A p, q \in Logged : Same(p[1], q[1]) = Same(p[2], q[2])
\* numbered instructions do to numbered pushdowns what instructions do to pushdowns
Commutes == \A p \in Logged : p[1].ins[1] = "R" =>
   \A s \in {u \in Upto(DOMAIN st, 2) : u # <<>>} :
      LET plain == Replace(s, p[1].ins[2], p[1].ins[3])
          coded == Replace(Coded(st, s), p[2].ins[2], p[2].ins[3]) IN
      Len(plain) = Len(coded) /\ (plain # <<>> => Coded(st, plain[1]) = coded[1])
\* the order is total whatever total order the instructions have
ByShape(a, b) == First(<<Cmp(Len(a), Len(b)), LexInts(Symbols(a), Symbols(b))>>)
Order == \A p, q \in Logged :
   /\ CmpTransition(p[1], q[1], ByShape) = -CmpTransition(q[1], p[1], ByShape)
   /\ (p[1] = q[1] => CmpTransition(p[1], q[1], ByShape) = 0)
   /\ (p[1].w < q[1].w => CmpTransition(p[1], q[1], ByShape) = -1)
\* merging leaves one transition for all that say the same, and no weight is lost
Merging == LET ts == [k \in 1..Len(log) |-> log[k][1]] m == Merged(ts) IN
   /\ SumW(m) = SumW(ts)
   /\ {Says(m[k]) : k \in 1..Len(m)} = {Says(ts[k]) : k \in 1..Len(ts)}
   /\ \A j, k \in 1..Len(m) : Same(m[j], m[k]) => j = k
=============================================================================
