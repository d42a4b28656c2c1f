----------------------------- MODULE AutomataPool -----------------------------
(* Small grammars and automata, and what the derivations of a grammar are, independently of automata. *)
EXTENDS Automata
WordsUpTo(L, n) == UNION {[1..m -> L] : m \in 0..n}
SubsetsUpTo(S, n) == {T \in SUBSET S : Cardinality(T) <= n /\ T # {}}

\* ---- CFGs over nonterminals 1, 2 and letters 1, 2; before a letter only the later nonterminal
N_(x) == <<"N", x>>
T_(x) == <<"T", x>>
Half == <<1, 1>>
CfgRules == { [head |-> 1, comp |-> <<>>, w |-> Half],
              [head |-> 1, comp |-> <<T_(1), N_(1), T_(2)>>, w |-> <<1, 2>>],
              [head |-> 1, comp |-> <<N_(2), N_(2)>>, w |-> <<3, 2>>],
              [head |-> 1, comp |-> <<N_(2), T_(1)>>, w |-> Half],
              [head |-> 1, comp |-> <<T_(2), N_(1), N_(2)>>, w |-> One],
              [head |-> 2, comp |-> <<>>, w |-> <<1, 2>>],
              [head |-> 2, comp |-> <<T_(1)>>, w |-> Half],
              [head |-> 2, comp |-> <<T_(2), N_(2)>>, w |-> <<3, 2>>],
              [head |-> 2, comp |-> <<T_(1), T_(1)>>, w |-> One] }
Cfgs(n) == {[rules |-> Listed(R), init |-> i] : R \in SubsetsUpTo(CfgRules, n), i \in {<<1>>, <<1, 2>>}}
\* derivation trees <<rule, trees of the nonterminals>> of height at most h
RECURSIVE Forests(_, _, _), Trees(_, _, _)
Nts(comp) == SelectSeq(comp, LAMBDA x : x[1] = "N")
Trees(g, n, h) == IF h = 0 THEN {}
                  ELSE UNION {{<<r, f>> : f \in Forests(g, Nts(g.rules[r].comp), h - 1)} : r \in {r \in 1..Len(g.rules) : g.rules[r].head = n}}
Forests(g, ns, h) == IF ns = <<>> THEN {<<>>} ELSE {<<t>> \o f : t \in Trees(g, Head(ns)[2], h), f \in Forests(g, Tail(ns), h)}
RECURSIVE Yield(_, _), Preorder(_), Fill(_, _, _), Cat(_), Weight(_, _)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Fill(g, comp, ts) == IF comp = <<>> THEN <<>> ELSE IF Head(comp)[1] = "T" THEN <<Head(comp)[2]>> \o Fill(g, Tail(comp), ts)
                     ELSE Yield(g, Head(ts)) \o Fill(g, Tail(comp), Tail(ts))
Yield(g, t) == Fill(g, g.rules[t[1]].comp, t[2])
Preorder(t) == <<t[1]>> \o Cat([k \in 1..Len(t[2]) |-> Preorder(t[2][k])])
RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN One ELSE Mul(Head(q), Product(Tail(q)))
RulesWeight(g, rs) == Product([k \in 1..Len(rs) |-> g.rules[rs[k]].w])
Weight(g, t) == RulesWeight(g, Preorder(t))
\* the derivations of a word from an initial nonterminal: <<initial nonterminal, tree>>
CfgDerivations(g, w, h) == UNION {{<<i, t>> : t \in {x \in Trees(g, i, h) : Yield(g, x) = w}} : i \in Rng(g.init)}

\* ---- PMCFGs: ordered, linear, non-deleting
V_(i, j) == <<"V", i, j>>
R_(h, t, c, w) == [head |-> h, tail |-> t, comp |-> c, w |-> w]
PmcfgRules == { R_(1, <<2>>, <<<<V_(0, 0), V_(0, 1)>>>>, Half),
                R_(1, <<2>>, <<<<V_(0, 0), T_(1), V_(0, 1), T_(2), T_(1)>>>>, <<1, 2>>),
                R_(1, <<2, 2>>, <<<<V_(0, 0), V_(1, 0), V_(0, 1), V_(1, 1)>>>>, <<3, 2>>),
                R_(1, <<2, 1>>, <<<<V_(0, 0), T_(1), V_(1, 0), V_(0, 1)>>>>, One),
                R_(1, <<>>, <<<<>>>>, Half),
                R_(2, <<2>>, <<<<T_(1), V_(0, 0)>>, <<T_(2), V_(0, 1)>>>>, Half),
                R_(2, <<2>>, <<<<T_(1)>>, <<V_(0, 0), V_(0, 1)>>>>, <<3, 2>>),
                R_(2, <<>>, <<<<>>, <<>>>>, <<1, 2>>),
                R_(2, <<>>, <<<<T_(1)>>, <<T_(2), T_(2)>>>>, One),
                R_(2, <<1>>, <<<<T_(2), V_(0, 0)>>, <<>>>>, Half) }
Pmcfgs(n) == {[rules |-> Listed(R), init |-> <<1>>] : R \in SubsetsUpTo(PmcfgRules, n)}
\* derivations up to height h with at most b terminals (the grammars are linear and delete nothing)
Terms(r) == Len(SelectSeq(Cat(r.comp), LAMBDA x : x[1] = "T"))
RECURSIVE TermsOf(_, _), TermsIn(_, _)
TermsOf(g, t) == Terms(g.rules[t[1]]) + TermsIn(g, t[2])
TermsIn(g, ts) == IF ts = <<>> THEN 0 ELSE TermsOf(g, Head(ts)) + TermsIn(g, Tail(ts))
PTrees(g, n, h, b_) == LET RECURSIVE P(_, _, _), F(_, _, _)
                           P(m, k, b) == IF k = 0 THEN {} ELSE UNION {{<<r, f>> : f \in F(g.rules[r].tail, k - 1, b - Terms(g.rules[r]))} : r \in {r \in 1..Len(g.rules) : g.rules[r].head = m /\ Terms(g.rules[r]) <= b}}
                           F(ns, k, b) == IF ns = <<>> THEN {<<>>} ELSE UNION {{<<t>> \o f : f \in F(Tail(ns), k, b - TermsOf(g, t))} : t \in P(Head(ns), k, b)}
                       IN P(n, h, b_)
RECURSIVE CompYield(_, _, _)
CompYield(g, t, j) == Cat([k \in 1..Len(g.rules[t[1]].comp[j + 1]) |->
                          LET x == g.rules[t[1]].comp[j + 1][k] IN IF x[1] = "T" THEN <<x[2]>> ELSE CompYield(g, t[2][x[2] + 1], x[3])])
RECURSIVE AsMap(_, _)
AsMap(t, b) == LET S == {<<b, t[1]>>} \cup UNION {{<<a, AsMap(t[2][k], Append(b, k - 1))[a]>> : a \in DOMAIN AsMap(t[2][k], Append(b, k - 1))} : k \in 1..Len(t[2])}
               IN [a \in {s[1] : s \in S} |-> (CHOOSE s \in S : s[1] = a)[2]]
PmcfgDerivations(g, w, h) == UNION {{t \in PTrees(g, i, h, Len(w)) : CompYield(g, t, 0) = w} : i \in Rng(g.init)}

\* ---- explicit automata
PdaTrs == { <<<<>>, Half, <<"R", <<1>>, <<2, 1>>>>>>, <<<<1>>, Half, <<"R", <<2>>, <<>>>>>>, <<<<1>>, <<1, 2>>, <<"R", <<1>>, <<>>>>>>,
            <<<<>>, <<1, 2>>, <<"R", <<2, 1>>, <<2>>>>>>, <<<<1>>, Half, <<"R", <<1, 0>>, <<0, 2>>>>>>, <<<<1, 1>>, <<3, 2>>, <<"R", <<1>>, <<2>>>>>>,
            <<<<1>>, <<1, 2>>, <<"R", <<2>>, <<>>>>>> }
Pdas(n) == {[kind |-> "pda", tr |-> Listed(S), init |-> <<0, 1>>, fin |-> {}] : S \in SubsetsUpTo(PdaTrs, n)}
FsaTrs == { <<<<1>>, Half, <<"F", 0, 1>>>>, <<<<1>>, <<3, 2>>, <<"F", 1, 1>>>>, <<<<>>, Half, <<"F", 1, 0>>>>, <<<<1, 2>>, <<1, 2>>, <<"F", 0, 2>>>>,
            <<<<2>>, Half, <<"F", 1, 2>>>>, <<<<>>, <<1, 2>>, <<"F", 2, 2>>>>, <<<<1>>, <<1, 2>>, <<"F", 0, 1>>>> }
Fsas(n) == {[kind |-> "fsa", tr |-> Listed(S), init |-> 0, fin |-> F] : S \in SubsetsUpTo(FsaTrs, n), F \in {{}, {1}, {0, 2}}}
TsaTrs == { <<<<>>, Half, <<"Push", 0, 0, 1>>>>, <<<<1>>, Half, <<"Push", 1, 0, 1>>>>, <<<<1>>, Half, <<"Down", 1, 0, 2>>>>, <<<<>>, <<1, 2>>, <<"Down", 1, 2, 0>>>>,
            <<<<1>>, <<3, 2>>, <<"Up", 0, 2, 1, 1>>>>, <<<<2>>, Half, <<"Push", 0, 1, 2>>>>, <<<<>>, Half, <<"Down", 2, 1, 1>>>>, <<<<1>>, <<1, 2>>, <<"Push", 1, 2, 1>>>> }
Tsas(n) == {[kind |-> "tsa", tr |-> Listed(S), init |-> NewTree(0), fin |-> {}] : S \in SubsetsUpTo(TsaTrs, n)}
=============================================================================
