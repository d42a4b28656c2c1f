------------------------------- MODULE CsParsing -------------------------------
(***************************************************************************)
(* Chomsky-Schuetzenberger parsing of weighted LCFRS.                      *)
(*                                                                         *)
(* A grammar is [rules: sequence of [head, tail, comp, e], init]; comp is  *)
(* a sequence of components, each a sequence of <<"V", i, j>> and          *)
(* <<"T", t>>, numbers from 0; a weight is 2 to the power of -e.  Grammars *)
(* are in normal form: no component is empty, and a rule has variables     *)
(* only or is a single terminal.                                           *)
(*                                                                         *)
(* The context-free approximation has the states <<A, j>>: component j of  *)
(* A; each component of a rule has an equal share of its weight.  Its      *)
(* derivations of a word are enumerated best first; those in which all     *)
(* components of a nonterminal come from the same rule are the derivations *)
(* of the LCFRS.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rules(g) == 1..Len(g.rules)
\* ---- derivations of the LCFRS: [r, kids, e, y] with y the words of the components; n letters, exponent at most m
RECURSIVE Cat(_)
Cat(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws) \o Cat(Tail(ws))
Yield(g, r, kids) == [j \in 1..Len(g.rules[r].comp) |->
   Cat([k \in 1..Len(g.rules[r].comp[j]) |-> LET x == g.rules[r].comp[j][k] IN IF x[1] = "T" THEN <<x[2]>> ELSE kids[x[2] + 1].y[x[3] + 1]])]
RECURSIVE LD(_, _, _, _), LDs(_, _, _, _)
LD(g, a, n, m) == UNION {
   LET q == g.rules[r]
   IN IF q.e > m THEN {}
      ELSE IF q.tail = <<>> THEN IF n = 1 THEN {[r |-> r, kids |-> <<>>, e |-> q.e, y |-> Yield(g, r, <<>>)]} ELSE {}
      ELSE {[r |-> r, kids |-> s.kids, e |-> q.e + s.e, y |-> Yield(g, r, s.kids)] : s \in LDs(g, q.tail, n, m - q.e)}
   : r \in {r \in Rules(g) : g.rules[r].head = a}}
LDs(g, as, n, m) ==
  IF Len(as) = 1 THEN {[kids |-> <<d>>, e |-> d.e] : d \in LD(g, as[1], n, m)}
  ELSE UNION {UNION {{[kids |-> <<d>> \o s.kids, e |-> d.e + s.e] : s \in LDs(g, Tail(as), n - k, m - d.e)} : d \in LD(g, Head(as), k, m)} : k \in 1..(n - Len(as) + 1)}
Derivations(g, w, m) == IF w = <<>> THEN {} ELSE {d \in LD(g, g.init, Len(w), m) : d.y[1] = w}
\* a tree as a set of <<address, rule>>
RECURSIVE Placed(_, _, _)
Placed(g, d, b) == {<<b, g.rules[d.r]>>} \cup UNION {Placed(g, d.kids[k], Append(b, k - 1)) : k \in 1..Len(d.kids)}

\* ---- derivations of the approximation: [r, c, kids, e] for component c of rule r, reading w from i + 1 to k
RECURSIVE CF(_, _, _, _, _, _, _), CFs(_, _, _, _, _, _, _)
CF(g, w, a, j, i, k, m) == UNION {
   LET q == g.rules[r] u == q.comp[j + 1] f == q.e \div Len(q.comp)
   IN IF f > m THEN {}
      ELSE IF u[1][1] = "T" THEN IF k = i + 1 /\ w[k] = u[1][2] THEN {[r |-> r, c |-> j, kids |-> <<>>, e |-> f]} ELSE {}
      ELSE {[r |-> r, c |-> j, kids |-> s.kids, e |-> f + s.e] : s \in CFs(g, w, [v \in 1..Len(u) |-> <<q.tail[u[v][2] + 1], u[v][3]>>], 1, i, k, m - f)}
   : r \in {r \in Rules(g) : g.rules[r].head = a /\ j < Len(g.rules[r].comp)}}
CFs(g, w, qs, p, i, k, m) ==
  IF p = Len(qs) THEN {[kids |-> <<d>>, e |-> d.e] : d \in CF(g, w, qs[p][1], qs[p][2], i, k, m)}
  ELSE UNION {UNION {{[kids |-> <<d>> \o s.kids, e |-> d.e + s.e] : s \in CFs(g, w, qs, p + 1, mid, k, m - d.e)}
                     : d \in CF(g, w, qs[p][1], qs[p][2], i, mid, m)} : mid \in (i + 1)..(k - (Len(qs) - p))}
CandidatesDef(g, w, m) == IF w = <<>> THEN {} ELSE CF(g, w, g.init, 0, 0, Len(w), m)
\* the same, shorter spans first: a table from spans to sets of [a, j, d]
Of(cell, a, j) == {x.d : x \in {y \in cell : y.a = a /\ y.j = j}}
RECURSIVE Joins(_, _, _, _, _), Chained(_, _, _, _), Grown(_, _, _, _, _)
Joins(T, qs, i, k, m) ==
  IF Len(qs) = 1 THEN {[kids |-> <<d>>, e |-> d.e] : d \in Of(T[<<i, k>>], qs[1][1], qs[1][2])}
  ELSE UNION {UNION {{[kids |-> <<d>> \o s.kids, e |-> d.e + s.e] : s \in {s \in Joins(T, Tail(qs), mid, k, m) : d.e + s.e <= m}}
                     : d \in Of(T[<<i, mid>>], qs[1][1], qs[1][2])} : mid \in (i + 1)..(k - Len(qs) + 1)}
Share(g, r) == g.rules[r].e \div Len(g.rules[r].comp)
Succs(g, r, u) == [v \in 1..Len(u) |-> <<g.rules[r].tail[u[v][2] + 1], u[v][3]>>]
Comps(g) == UNION {{<<r, j>> : j \in 0..(Len(g.rules[r].comp) - 1)} : r \in Rules(g)}
Node_(g, c, f, s) == [a |-> g.rules[c[1]].head, j |-> c[2], d |-> [r |-> c[1], c |-> c[2], kids |-> s.kids, e |-> f + s.e]]
Base(g, T, w, i, k, m) == UNION {
   LET u == g.rules[c[1]].comp[c[2] + 1] f == Share(g, c[1])
   IN IF f > m THEN {}
      ELSE IF u[1][1] = "T" THEN (IF k = i + 1 /\ w[k] = u[1][2] THEN {Node_(g, c, f, [kids |-> <<>>, e |-> 0])} ELSE {})
      ELSE IF Len(u) = 1 \/ Len(u) > k - i THEN {}
      ELSE {Node_(g, c, f, s) : s \in Joins(T, Succs(g, c[1], u), i, k, m - f)}
   : c \in Comps(g)}
\* chain rules on the new ones
Chained(g, new, all, m) ==
  IF new = {} THEN all
  ELSE LET N == UNION {LET u == g.rules[c[1]].comp[c[2] + 1] f == Share(g, c[1])
                       IN IF Len(u) # 1 \/ u[1][1] = "T" THEN {}
                          ELSE {Node_(g, c, f, [kids |-> <<d>>, e |-> d.e]) : d \in {d \in Of(new, g.rules[c[1]].tail[u[1][2] + 1], u[1][3]) : d.e + f <= m}}
                       : c \in Comps(g)} \ all
       IN Chained(g, N, all \cup N, m)
Cell(g, T, w, i, k, m) == LET B == Base(g, T, w, i, k, m) IN Chained(g, B, B, m)
Grown(g, T, w, n, m) == IF n > Len(w) THEN T
                        ELSE Grown(g, T @@ [x \in {<<i, i + n>> : i \in 0..(Len(w) - n)} |-> Cell(g, T, w, x[1], x[2], m)], w, n + 1, m)
Table(g, w, m) == Grown(g, <<>>, w, 1, m)
Top(g, w, T) == IF w = <<>> THEN {} ELSE Of(T[<<0, Len(w)>>], g.init, 0)
Candidates(g, w, m) == Top(g, w, Table(g, w, m))
\* the rules at the addresses of the tree that a candidate describes
RECURSIVE Read(_, _, _)
Read(g, d, b) == {<<b, d.r>>} \cup UNION {Read(g, d.kids[k], Append(b, g.rules[d.r].comp[d.c + 1][k][2])) : k \in 1..Len(d.kids)}
Consistent(g, d) == LET S == Read(g, d, <<>>) IN \A x, y \in S : x[1] = y[1] => x[2] = y[2]
Tree(g, d) == {<<x[1], g.rules[x[2]]>> : x \in Read(g, d, <<>>)}

\* ---- states and chains
States(g) == UNION {{<<g.rules[r].head, j>> : j \in 0..(Len(g.rules[r].comp) - 1)} : r \in Rules(g)}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* rules with more than two variables in a component are split
NStates(g) == Cardinality(States(g)) + Sum([r \in Rules(g) |-> Sum([j \in 1..Len(g.rules[r].comp) |-> IF Len(g.rules[r].comp[j]) > 2 THEN Len(g.rules[r].comp[j]) - 2 ELSE 0])])
ChainTo(g, s) == UNION {LET q == g.rules[r] u == q.comp[s[2] + 1] IN IF Len(u) = 1 /\ u[1][1] = "V" THEN {<<q.tail[u[1][2] + 1], u[1][3]>>} ELSE {}
                        : r \in {r \in Rules(g) : g.rules[r].head = s[1] /\ s[2] < Len(g.rules[r].comp)}}
RECURSIVE ReachC(_, _, _)
ReachC(g, F, S) == LET N == UNION {ChainTo(g, s) : s \in F} \ S IN IF N = {} THEN S ELSE ReachC(g, N, S \cup N)
Acyclic(g) == \A s \in States(g) : LET N == ChainTo(g, s) IN s \notin ReachC(g, N, N)

\* only rules that can take part in a derivation with the letters of the word are used
Letters(w) == {w[k] : k \in 1..Len(w)}
Ends(q) == {q.tail[k] : k \in 1..Len(q.tail)}
RECURSIVE Productive(_, _, _), Reached(_, _, _)
Productive(R, w, P) == LET N == {q.head : q \in {q \in R : q.head \notin P /\ (IF q.tail = <<>> THEN q.comp[1][1][2] \in Letters(w) ELSE Ends(q) \subseteq P)}}
                       IN IF N = {} THEN P ELSE Productive(R, w, P \cup N)
Reached(R, F, S) == LET N == UNION {Ends(q) : q \in {q \in R : q.head \in F}} \ S IN IF N = {} THEN S ELSE Reached(R, N, S \cup N)
Masked(g, w) == LET P == Productive({g.rules[r] : r \in Rules(g)}, w, {})
                    R == {g.rules[r] : r \in {r \in Rules(g) : IF g.rules[r].tail = <<>> THEN g.rules[r].comp[1][1][2] \in Letters(w) ELSE Ends(g.rules[r]) \subseteq P}}
                    S == Reached(R, {g.init}, {g.init})
                IN [g EXCEPT !.rules = SelectSeq(g.rules, LAMBDA q : q \in R /\ q.head \in S)]

\* ---- the fallback: one candidate read as a tree, whatever rules its components come from
\* a candidate as it looks: [nt, c, body: of <<"T", t>> and <<"N", nonterminal, component>>, kids]
RECURSIVE Look(_, _)
Look(g, d) == LET q == g.rules[d.r] u == q.comp[d.c + 1]
              IN [nt |-> q.head, c |-> d.c,
                  body |-> [k \in 1..Len(u) |-> IF u[k][1] = "T" THEN u[k] ELSE <<"N", q.tail[u[k][2] + 1], u[k][3]>>],
                  kids |-> [k \in 1..Len(d.kids) |-> Look(g, d.kids[k])]]
\* a tree as a set of <<address, rule>>, seen from component c of the node at b
Node(t, b) == (CHOOSE x \in t : x[1] = b)[2]
HasNode(t, b) == \E x \in t : x[1] = b
Vars(u) == SelectSeq(u, LAMBDA x : x[1] = "V")
RECURSIVE Whole(_, _, _), Seen(_, _, _)
\* all nodes are there that component c uses
Whole(t, b, c) == HasNode(t, b) /\ LET q == Node(t, b) IN c < Len(q.comp) /\ \A k \in 1..Len(q.comp[c + 1]) :
                    LET x == q.comp[c + 1][k] IN x[1] = "V" => (x[2] < Len(q.tail) /\ Whole(t, Append(b, x[2]), x[3]))
Seen(t, b, c) == LET q == Node(t, b) u == q.comp[c + 1] v == Vars(u)
                 IN [nt |-> q.head, c |-> c,
                     body |-> [k \in 1..Len(u) |-> IF u[k][1] = "T" THEN u[k] ELSE <<"N", Node(t, Append(b, u[k][2])).head, u[k][3]>>],
                     kids |-> [k \in 1..Len(v) |-> Seen(t, Append(b, v[k][2]), v[k][3])]]
RECURSIVE Visited(_, _, _)
Visited(t, b, c) == LET v == Vars(Node(t, b).comp[c + 1]) IN {b} \cup UNION {Visited(t, Append(b, v[k][2]), v[k][3]) : k \in 1..Len(v)}
FormsTree(t) ==
  /\ Whole(t, <<>>, 0)
  /\ Visited(t, <<>>, 0) = {x[1] : x \in t}
  /\ \A x \in t : \A k \in 1..Len(x[2].tail) : HasNode(t, Append(x[1], k - 1)) /\ Node(t, Append(x[1], k - 1)).head = x[2].tail[k]
  /\ \A x \in t : x[2].e = -1
IsFallback(g, t, D) == FormsTree(t) /\ \E d \in D : Look(g, d) = Seen(t, <<>>, 0)
\* how a fallback is made: children are numbered in the order in which they occur, components one after the other
RECURSIVE Grp(_, _, _, _)
\* ds: the sequence of candidates' nodes that belong to the address b
Uses(g, ds) == Cat([n \in 1..Len(ds) |-> [k \in 1..Len(ds[n].kids) |-> <<ds[n].r, g.rules[ds[n].r].comp[ds[n].c + 1][k][2]>>]])
RECURSIVE Firsts(_, _)
Firsts(q, acc) == IF q = <<>> THEN acc ELSE Firsts(Tail(q), IF \E k \in 1..Len(acc) : acc[k] = Head(q) THEN acc ELSE Append(acc, Head(q)))
At(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x
Max(S) == CHOOSE m \in S : \A k \in S : k <= m
Grp(g, ds, b, dummy) ==
  LET us == Firsts(Uses(g, ds), <<>>)
      part(n) == LET u == g.rules[ds[n].r].comp[ds[n].c + 1] IN [k \in 1..Len(u) |-> IF u[k][1] = "T" THEN u[k] ELSE <<"V", At(us, <<ds[n].r, u[k][2]>>) - 1, u[k][3]>>]
      rule == [head |-> g.rules[ds[1].r].head, tail |-> [k \in 1..Len(us) |-> g.rules[us[k][1]].tail[us[k][2] + 1]],
               comp |-> [j \in 1..(1 + Max({ds[n].c : n \in 1..Len(ds)})) |-> Cat([n \in 1..Len(ds) |-> IF ds[n].c = j - 1 THEN part(n) ELSE <<>>])], e |-> -1]
      below(k) == Cat([n \in 1..Len(ds) |-> LET u == g.rules[ds[n].r].comp[ds[n].c + 1] hit == {p \in 1..Len(ds[n].kids) : <<ds[n].r, u[p][2]>> = us[k]}
                                            IN Cat([p \in 1..Len(ds[n].kids) |-> IF p \in hit THEN <<ds[n].kids[p]>> ELSE <<>>])])
  IN {<<b, rule>>} \cup UNION {Grp(g, below(k), Append(b, k - 1), 0) : k \in 1..Len(us)}
Fallback(g, d) == Grp(g, <<d>>, <<>>, 0)

\* ---- enumeration: what may come out of the candidates D, of which the first cand are looked at (-1: all of them)
Exps(D) == {d.e : d \in D}
Below(D, x) == {d \in D : d.e < x}
AtE(D, x) == {d \in D : d.e = x}
\* the exponent of the n-th best (n <= Cardinality(D))
Nth(D, n) == CHOOSE x \in Exps(D) : Cardinality(Below(D, x)) < n /\ n <= Cardinality(Below(D, x)) + Cardinality(AtE(D, x))
Good(g, D) == {d \in D : Consistent(g, d)}
Sorted(q) == \A k \in 1..(Len(q) - 1) : q[k] <= q[k + 1]
RECURSIVE TreeExp(_)
TreeExp(t) == IF t = {} THEN 0 ELSE LET x == CHOOSE x \in t : TRUE IN x[2].e + TreeExp(t \ {x})
IsEnumeration(g, D, cand, out) ==    \* out: sequence of trees
  LET G == Good(g, D)
      trees(S) == {Tree(g, d) : d \in S}
      O == {out[k] : k \in 1..Len(out)}
  IN /\ Cardinality(O) = Len(out)
     /\ Sorted([k \in 1..Len(out) |-> TreeExp(out[k])])
     /\ IF cand = -1 \/ cand >= Cardinality(D) THEN O = trees(G)
        ELSE IF cand = 0 THEN O = {}
        ELSE LET x == Nth(D, cand) left == cand - Cardinality(Below(D, x)) bad == AtE(D, x) \ G at == O \cap trees(AtE(G, x))
             IN /\ O \subseteq trees(Below(G, x)) \cup trees(AtE(G, x))
                /\ trees(Below(G, x)) \subseteq O
                /\ Cardinality(at) <= left /\ Cardinality(at) >= left - Cardinality(bad)
\* some of the candidates may have been pruned: what comes out is still in order and correct
IsPruned(g, D, cand, out) == LET O == {out[k] : k \in 1..Len(out)}
                             IN /\ Cardinality(O) = Len(out) /\ (cand = -1 \/ Len(out) <= cand)
                                /\ Sorted([k \in 1..Len(out) |-> TreeExp(out[k])]) /\ O \subseteq {Tree(g, d) : d \in Good(g, D)}
\* a tree is a derivation of w
RECURSIVE TreeYield(_, _, _)
TreeYield(t, b, c) == LET u == Node(t, b).comp[c + 1] IN Cat([k \in 1..Len(u) |-> IF u[k][1] = "T" THEN <<u[k][2]>> ELSE TreeYield(t, Append(b, u[k][2]), u[k][3])])
IsDerivation(g, w, t) == /\ HasNode(t, <<>>) /\ Node(t, <<>>).head = g.init
                         /\ \A x \in t : /\ \E r \in Rules(g) : g.rules[r] = x[2]
                                        /\ \A k \in 1..Len(x[2].tail) : HasNode(t, Append(x[1], k - 1)) /\ Node(t, Append(x[1], k - 1)).head = x[2].tail[k]
                                        /\ x[1] # <<>> => LET b == SubSeq(x[1], 1, Len(x[1]) - 1) IN HasNode(t, b) /\ x[1][Len(x[1])] < Len(Node(t, b).tail)
                         /\ TreeYield(t, <<>>, 0) = w
AreDerivations(g, w, cand, out) == /\ Cardinality({out[k] : k \in 1..Len(out)}) = Len(out) /\ (cand = -1 \/ Len(out) <= cand)
                                   /\ Sorted([k \in 1..Len(out) |-> TreeExp(out[k])])
                                   /\ \A k \in 1..Len(out) : IsDerivation(g, w, out[k])
\* the first results of an enumeration that was not finished; D holds all candidates up to the exponent of the last of them
IsFirst(g, D, out) == IsPruned(g, D, -1, out) /\ LET O == {out[k] : k \in 1..Len(out)} IN \A d \in Good(g, Below(D, TreeExp(out[Len(out)]))) : Tree(g, d) \in O
Best(D) == {d \in D : \A x \in D : d.e <= x.e}

\* ---- pruning: items (a component of a nonterminal, or a beginning of a component, and a span) with the exponent of their best derivation
Least(S) == CHOOSE m \in S : \A k \in S : m <= k
ItemExps(g, T, i, k) ==
  {<<s, Least(Exps(Of(T[<<i, k>>], s[1], s[2])))>> : s \in {<<x.a, x.j>> : x \in T[<<i, k>>]}}
  \cup UNION {UNION {LET u == g.rules[c[1]].comp[c[2] + 1]
                        D == IF p > k - i THEN {} ELSE Joins(T, SubSeq(Succs(g, c[1], u), 1, p), i, k, 1000000)
                    IN IF D = {} THEN {} ELSE {<<<<c[1], c[2], p>>, Share(g, c[1]) + Least(Exps(D))>>}
                    : p \in 2..(Len(g.rules[c[1]].comp[c[2] + 1]) - 1)} : c \in Comps(g)}
\* nothing needs to be pruned with this beam and this threshold
Roomy(g, w, T, beam, delta) ==
  \A i \in 0..(Len(w) - 1) : \A k \in (i + 1)..Len(w) :
     LET I == ItemExps(g, T, i, k)
     IN /\ beam = -1 \/ Cardinality(I) <= beam
        /\ delta = -1 \/ \A x, y \in I : x[2] - y[2] < delta
\* in the trees that come out, a span carries at most as many constituents as the beam allows (the root apart)
RECURSIVE Width(_, _, _), Spans(_, _, _, _), SpansC(_, _, _, _, _)
Width(t, b, c) == LET u == Node(t, b).comp[c + 1] IN Sum([k \in 1..Len(u) |-> IF u[k][1] = "T" THEN 1 ELSE Width(t, Append(b, u[k][2]), u[k][3])])
Spans(t, b, c, i) == {<<i, i + Width(t, b, c), Node(t, b).head, c>>} \cup SpansC(t, b, Node(t, b).comp[c + 1], 1, i)
SpansC(t, b, u, k, i) == IF k > Len(u) THEN {}
                         ELSE IF u[k][1] = "T" THEN SpansC(t, b, u, k + 1, i + 1)
                         ELSE LET v == Append(b, u[k][2]) IN Spans(t, v, u[k][3], i) \cup SpansC(t, b, u, k + 1, i + Width(t, v, u[k][3]))
WithinBeam(out, beam) == LET S == UNION {Spans(out[k], <<>>, 0, 0) \ {<<0, Width(out[k], <<>>, 0), Node(out[k], <<>>).head, 0>>} : k \in 1..Len(out)}
                         IN \A x \in S : Cardinality({y \in S : y[1] = x[1] /\ y[2] = x[2]}) <= beam
=============================================================================
