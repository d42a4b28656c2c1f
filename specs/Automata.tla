-------------------------------- MODULE Automata --------------------------------
(***************************************************************************)
(* Weighted automata with storage.                                         *)
(*                                                                         *)
(* An automaton is [kind, tr, init, fin]: tr is a sequence of transitions  *)
(* <<word, weight, instruction>> (equal ones may occur several times), and *)
(* the storage is                                                          *)
(*   "pda" - a stack, its top last; instructions <<"R", old, new>>;        *)
(*   "tsa" - a tree stack (Storages); <<"Up", ..>>, <<"Push", ..>>,        *)
(*           <<"Down", ..>>;                                               *)
(*   "fsa" - a state; <<"F", source, target>>.                             *)
(* A weight is <<n, k>>, standing for n / 2^k.                             *)
(*                                                                         *)
(* A run is the sequence of the indices of the transitions applied, one    *)
(* after the other, from the initial storage on; it accepts a word if it   *)
(* has read all of it and ends in a terminal storage.                      *)
(***************************************************************************)
EXTENDS Storages

One == <<1, 0>>
Mul(a, b) == <<a[1] * b[1], a[2] + b[2]>>
Pow2(n) == 2 ^ n
Add(a, b) == IF a[2] >= b[2] THEN <<a[1] + b[1] * Pow2(a[2] - b[2]), a[2]>> ELSE <<a[1] * Pow2(b[2] - a[2]) + b[1], b[2]>>
Zero == <<0, 0>>
\* in units of 2^-24
Scaled(w) == IF w[2] <= 24 THEN w[1] * Pow2(24 - w[2]) ELSE IF w[2] > 54 THEN 0 ELSE w[1] \div Pow2(w[2] - 24)
\* as measured (the last unit is rounded where the weight has more digits)
Measured(x, w) == LET d == x - Scaled(w) IN IF w[2] <= 24 THEN d = 0 ELSE d \in {0, 1}

Rng(q) == {q[k] : k \in 1..Len(q)}
Word(t) == t[1]
Wt(t) == t[2]
Ins(t) == t[3]
SameTr(t, u) == Word(t) = Word(u) /\ Ins(t) = Ins(u)
Succ(kind, i, st) ==
  CASE kind = "pda" -> Replace(st, i[2], i[3])
    [] kind = "tsa" -> ApplyTree(i, st)
    [] kind = "fsa" -> IF st = i[2] THEN <<i[3]>> ELSE <<>>
StartsAt(w, p, u) == p + Len(u) <= Len(w) /\ SubSeq(w, p + 1, p + Len(u)) = u

--------------------------------------------------------------------------
\* the items of the search: [r: run, p: letters read, st: storage, w: weight]
Start(a) == [r |-> <<>>, p |-> 0, st |-> a.init, w |-> One]
Steps(a, word, x) ==
  UNION { IF StartsAt(word, x.p, Word(a.tr[i]))
          THEN LET q == Succ(a.kind, Ins(a.tr[i]), x.st)
               IN {[r |-> Append(x.r, i), p |-> x.p + Len(Word(a.tr[i])), st |-> q[k], w |-> Mul(x.w, Wt(a.tr[i]))] : k \in 1..Len(q)}
          ELSE {} : i \in 1..Len(a.tr) }
\* a tree stack automaton has to have done something: the storage at the start is at the bottom, too
Terminal(a, st, r) == CASE a.kind = "pda" -> Len(st) = 1
                        [] a.kind = "tsa" -> st.at = <<>> /\ r # <<>>
                        [] a.kind = "fsa" -> st \in a.fin
Accepts(a, word, x) == x.p = Len(word) /\ Terminal(a, x.st, x.r)
\* all items of weight at least min (in units of 2^-24)
RECURSIVE Ex(_, _, _, _, _)
Ex(a, word, F, acc, min) ==
  IF F = {} THEN acc
  ELSE Ex(a, word, {y \in UNION {Steps(a, word, x) : x \in F} : Scaled(y.w) >= min}, acc \cup {x \in F : Accepts(a, word, x)}, min)
Runs(a, word, min) == Ex(a, word, {Start(a)}, {}, min)

--------------------------------------------------------------------------
\* equal transitions of a pushdown automaton become one
SumW(tr, t) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN Zero ELSE IF SameTr(tr[k], t) THEN Add(S(k - 1), Wt(tr[k])) ELSE S(k - 1) IN S(Len(tr))
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : TRUE IN <<m>> \o Listed(S \ {m})
Merged(tr) == Listed({<<Word(tr[k]), SumW(tr, tr[k]), Ins(tr[k])>> : k \in 1..Len(tr)})
Built(a) == IF a.kind = "pda" THEN [a EXCEPT !.tr = Merged(@)] ELSE a

--------------------------------------------------------------------------
\* the pushdown automaton of a CFG [rules: of [head, comp, w], init]
\* comp: of <<"N", nonterminal>> and <<"T", terminal>>
CfgTerminals(g) == {x[2] : x \in {y \in UNION {Rng(r.comp) : r \in Rng(g.rules)} : y[1] = "T"}}
OfCfg(g) ==
  LET rs == [k \in 1..Len(g.rules) |-> <<<<>>, g.rules[k].w, <<"R", <<<<"N", g.rules[k].head>>>>, Rev(g.rules[k].comp)>>>>]
      ts == Listed({<<<<t>>, One, <<"R", <<<<"T", t>>>>, <<>>>>>> : t \in CfgTerminals(g)})
      is == [k \in 1..Len(g.init) |-> <<<<>>, One, <<"R", <<<<"I">>>>, <<<<"N", g.init[k]>>>>>>>>]
  IN [kind |-> "pda", tr |-> rs \o ts \o is, init |-> <<<<"@">>, <<"I">>>>, fin |-> {}]

\* the tree stack automaton of a PMCFG [rules: of [head, tail, comp, w], init], comp: of sequences of <<"V", i, j>>, <<"T", t>>
\* (linear, non-deleting, components of a child used in their order)
Pos(r, j, k) == <<"P", r, j, k>>
\* the variables of component j (numbers from 0): of <<word before it, i, j1>>; the word after the last one
RECURSIVE Split(_, _, _)
Split(c, u, acc) == IF c = <<>> THEN [vs |-> acc, rest |-> u]
                    ELSE IF Head(c)[1] = "T" THEN Split(Tail(c), Append(u, Head(c)[2]), acc)
                    ELSE Split(Tail(c), <<>>, Append(acc, <<u, Head(c)[2], Head(c)[3]>>))
Comp(g, r, j) == Split(g.rules[r].comp[j + 1], <<>>, <<>>)
NVars(g, r, j) == Len(Comp(g, r, j).vs)
\* the components of child i visited before variable k of component j
Before(g, r, j, k, i) ==
  LET all == {<<jj, kk>> \in (0..j) \X (0..20) : kk < NVars(g, r, jj) /\ (jj < j \/ kk < k)}
  IN {<<x, Comp(g, r, x[1]).vs[x[2] + 1][3]>> : x \in {y \in all : Comp(g, r, y[1]).vs[y[2] + 1][2] = i}}
LastBefore(g, r, j, k, i) ==   \* the component visited last, or -1
  LET B == Before(g, r, j, k, i)
  IN IF B = {} THEN -1 ELSE (CHOOSE b \in B : \A d \in B : d[1][1] < b[1][1] \/ (d[1][1] = b[1][1] /\ d[1][2] <= b[1][2]))[2]
OfPmcfg(g) ==
  LET R == 1..Len(g.rules)
      starts == {r \in R : g.rules[r].head \in Rng(g.init)}
      entry == {<<<<>>, g.rules[r].w, <<"Push", 0, <<"I">>, Pos(r, 0, 0)>>>> : r \in starts}
      exit == {<<Comp(g, r, 0).rest, One, <<"Down", Pos(r, 0, NVars(g, r, 0)), <<"I">>, <<"@">>>>>> : r \in starts}
      places == {<<r, j, k>> \in R \X (0..5) \X (0..20) : j < Len(g.rules[r].comp) /\ k < NVars(g, r, j)}
      inner(pl) == LET r == pl[1] j == pl[2] k == pl[3] v == Comp(g, r, j).vs[k + 1] i == v[2] j1 == v[3] p == LastBefore(g, r, j, k, i)
                       kids == {q \in R : g.rules[q].head = g.rules[r].tail[i + 1]}
                   IN {IF p = -1 THEN <<v[1], g.rules[q].w, <<"Push", i, Pos(r, j, k), Pos(q, j1, 0)>>>>
                       ELSE <<v[1], One, <<"Up", i, Pos(r, j, k), Pos(q, p, NVars(g, q, p)), Pos(q, j1, 0)>>>> : q \in kids}
                      \cup {<<Comp(g, q, j1).rest, One, <<"Down", Pos(q, j1, NVars(g, q, j1)), Pos(r, j, k), Pos(r, j, k + 1)>>>> : q \in kids}
  IN [kind |-> "tsa", tr |-> Listed(entry \cup exit \cup UNION {inner(pl) : pl \in places}), init |-> NewTree(<<"I">>), fin |-> {}]
\* the derivation a storage stands for: rules at addresses
TreeOf(st) == LET A == {b \in DOMAIN st.t : b # <<>>} IN [b \in {Tail(x) : x \in A} |-> st.t[<<0>> \o b][2]]

--------------------------------------------------------------------------
\* best first with a bounded agenda, as long as no two items on it weigh the same: the accepted items in order, or "tie"
RECURSIVE TopOf(_, _)
TopOf(S, b) == IF Cardinality(S) <= b THEN S ELSE TopOf(S \ {CHOOSE x \in S : \A y \in S : Scaled(x.w) <= Scaled(y.w)}, b)
Ties(S) == Cardinality({Scaled(x.w) : x \in S}) < Cardinality(S)
RECURSIVE Beam(_, _, _, _, _)
Beam(a, word, b, F, acc) ==
  IF F = {} THEN [tie |-> FALSE, out |-> acc]
  ELSE LET m == CHOOSE x \in F : \A y \in F : Scaled(y.w) <= Scaled(x.w)
           G == (F \ {m}) \cup Steps(a, word, m)
       IN IF Ties(G) THEN [tie |-> TRUE, out |-> acc]
          ELSE Beam(a, word, b, TopOf(G, b), IF Accepts(a, word, m) THEN Append(acc, m) ELSE acc)

--------------------------------------------------------------------------
\* approximations: a strategy is <<"tts">>, or a relabelling by the pairs s[2]:
\* "sym" - of symbols, "nt" - of nonterminals in <<"N", x>>, "pos" - of rules r in <<"P", r, j, k>> (by number)
MapSeq(f(_), q) == [k \in 1..Len(q) |-> f(q[k])]
Image(ps, x) == ps[CHOOSE k \in 1..Len(ps) : ps[k][1] = x][2]
Sym(s, x) == CASE s[1] = "sym" -> Image(s[2], x)
               [] s[1] = "nt" -> IF x[1] = "N" THEN <<"N", Image(s[2], x[2])>> ELSE x
               [] s[1] = "pos" -> IF x[1] = "P" THEN <<"P", Image(s[2], x[2]), x[3], x[4]>> ELSE x
ApproxStorage(s, st) == IF s[1] = "tts" THEN [k \in 1..(Len(st.at) + 1) |-> st.t[SubSeq(st.at, 1, k - 1)]]
                        ELSE MapSeq(LAMBDA x : Sym(s, x), st)
ApproxIns(s, i) ==
  IF s[1] # "tts" THEN <<"R", MapSeq(LAMBDA x : Sym(s, x), i[2]), MapSeq(LAMBDA x : Sym(s, x), i[3])>>
  ELSE CASE i[1] = "Up" -> <<"R", <<i[3]>>, <<i[3], i[5]>>>>
         [] i[1] = "Push" -> <<"R", <<i[3]>>, <<i[3], i[4]>>>>
         [] i[1] = "Down" -> <<"R", <<i[2], i[3]>>, <<i[4]>>>>
ApproxTr(s, t) == <<Word(t), Wt(t), ApproxIns(s, Ins(t))>>
Approx(s, a) == Built([kind |-> "pda", tr |-> [k \in 1..Len(a.tr) |-> ApproxTr(s, a.tr[k])], init |-> ApproxStorage(s, a.init), fin |-> {}])
=============================================================================
