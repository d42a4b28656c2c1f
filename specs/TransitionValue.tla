---------------------------- MODULE TransitionValue ----------------------------
(***************************************************************************)
(* Transitions of automata as values, and the numbering of their symbols.  *)
(* A transition is [word, ins, w]; it says its word and its instruction,   *)
(* the weight is an annotation.  Instructions are                          *)
(*   <<"R", old, new>> (pushdown), <<"Up", n, c, o, x>>, <<"Push", n, c, x>>,*)
(*   <<"Down", c, o, x>> (tree stack), <<"F", p, q>> (finite states).      *)
(* Automata hold transitions in numbered form: two growing tables map the  *)
(* input symbols and the storage symbols to numbers, one to one.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Says(t) == <<t.word, t.ins>>
Same(t, u) == Says(t) = Says(u)
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE First(_)
First(s) == IF s = <<>> THEN 0 ELSE IF Head(s) # 0 THEN Head(s) ELSE First(Tail(s))
RECURSIVE LexInts(_, _)
LexInts(u, v) == IF u = <<>> \/ v = <<>> THEN Cmp(Len(u), Len(v))
                 ELSE IF Head(u) # Head(v) THEN Cmp(Head(u), Head(v)) ELSE LexInts(Tail(u), Tail(v))
\* by weight, then by word, then by instruction (whose order C(_, _) is)
CmpTransition(t, u, C(_, _)) == First(<<Cmp(t.w, u.w), LexInts(t.word, u.word), C(t.ins, u.ins)>>)

\* what of an instruction are storage symbols, and what remains without them
Symbols(i) == CASE i[1] = "R" -> i[2] \o i[3]
                [] i[1] \in {"Up", "Push"} -> SubSeq(i, 3, Len(i))
                [] OTHER -> Tail(i)
Shape(i) == CASE i[1] = "R" -> <<"R", Len(i[2]), Len(i[3])>>
              [] i[1] \in {"Up", "Push"} -> <<i[1], i[2]>>
              [] OTHER -> <<i[1]>>
With(i, s) == CASE i[1] = "R" -> <<"R", SubSeq(s, 1, Len(i[2])), SubSeq(s, Len(i[2]) + 1, Len(s))>>
                [] i[1] \in {"Up", "Push"} -> SubSeq(i, 1, 2) \o s
                [] OTHER -> <<i[1]>> \o s

\* a table is a function from symbols to numbers
Pairs(a, b) == {<<a[k], b[k]>> : k \in 1..Len(a)}
Graph(tab) == {<<x, tab[x]>> : x \in DOMAIN tab}
OneToOne(g) == \A p, q \in g : (p[1] = q[1]) = (p[2] = q[2])
\* symbols a may be numbered as b
Numbers(tab, a, b) == Len(a) = Len(b) /\ OneToOne(Graph(tab) \cup Pairs(a, b))
Grown(tab, a, b) == LET g == Graph(tab) \cup Pairs(a, b) IN [x \in {p[1] : p \in g} |-> (CHOOSE p \in g : p[1] = x)[2]]
NumbersTransition(wt, st, t, n) == n.w = t.w /\ Shape(n.ins) = Shape(t.ins) /\ Numbers(wt, t.word, n.word) /\ Numbers(st, Symbols(t.ins), Symbols(n.ins))
\* and back
SymbolOf(tab, n) == CHOOSE x \in DOMAIN tab : tab[x] = n
Back(tab, b) == [k \in 1..Len(b) |-> SymbolOf(tab, b[k])]
BackTransition(wt, st, n) == [word |-> Back(wt, n.word), ins |-> With(n.ins, Back(st, Symbols(n.ins))), w |-> n.w]

\* a pushdown automaton holds one transition for all that say the same, with the sum of their weights
RECURSIVE SumW(_)
SumW(ts) == IF ts = <<>> THEN 0 ELSE Head(ts).w + SumW(Tail(ts))
RECURSIVE Merged(_)
Merged(ts) == IF ts = <<>> THEN <<>> ELSE
   LET t == Head(ts) IN <<[t EXCEPT !.w = SumW(SelectSeq(ts, LAMBDA u : Same(t, u)))]>> \o Merged(SelectSeq(ts, LAMBDA u : ~Same(t, u)))

\* which keys file a transition: the topmost storage symbol it asks for
Key(i) == CASE i[1] = "R" -> i[2][1] [] i[1] \in {"Up", "Push"} -> i[3] [] OTHER -> i[2]
=============================================================================
