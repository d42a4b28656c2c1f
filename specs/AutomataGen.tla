------------------------------ MODULE AutomataGen ------------------------------
(***************************************************************************)
(* Cases for the real code: the small grammars and automata of a kind,     *)
(* each with all short words whose search ends.                            *)
(***************************************************************************)
EXTENDS AutomataPool, SequencesExt, Json, IOUtils
VARIABLE dummy
Kind == IOEnv.GEN_KIND
What == IOEnv.GEN_WHAT
N == atoi(IOEnv.GEN_N)
WL == atoi(IOEnv.GEN_WORD)
RECURSIVE Ends(_, _, _, _)
Ends(a, w, F, n) == F = {} \/ (n > 0 /\ Cardinality(F) <= 60 /\ Ends(a, w, UNION {Steps(a, w, y) : y \in F}, n - 1))
Plain(a) == [a EXCEPT !.tr = [k \in 1..Len(a.tr) |-> <<Word(a.tr[k]), One, Ins(a.tr[k])>>]]
Finite(a, w) == Ends(Plain(a), w, {Start(a)}, 16)
RECURSIVE All(_, _, _)
All(a, w, F) == IF F = {} THEN 0 ELSE Cardinality(F) + All(a, w, UNION {Steps(a, w, y) : y \in F})
RECURSIVE Chain(_, _)
Chain(a, ss) == IF ss = <<>> THEN <<a>> ELSE <<a>> \o Chain(Approx(Head(ss), a), Tail(ss))
Syms == <<"sym", <<<<0, 0>>, <<1, 1>>, <<2, 1>>>>>>
Swap == <<"sym", <<<<0, 0>>, <<1, 2>>, <<2, 1>>>>>>
MergeNts == <<"nt", <<<<1, 1>>, <<2, 1>>>>>>
Ids == <<"nt", <<<<1, 2>>, <<2, 1>>>>>>
Pos_(g) == LET m == <<<<1, 1>>, <<2, 1>>>> IN <<"pos", [q \in 1..Len(g.rules) |-> <<q, 1>>], m>>
\* <<automaton, chain of strategies, the fields that describe it>>
None == {<<>>}
Chains(g) == CASE What \in {"run", "beam"} -> None
               [] Kind = "pda" -> {<<Syms>>, <<Swap>>} \cup (IF What = "c2f" THEN {<<Swap, Syms>>} ELSE {})
               [] Kind = "cfg" -> {<<MergeNts>>, <<Ids>>}
               [] Kind = "tsa" -> {<<<<"tts">>>>} \cup (IF What = "c2f" THEN {<<<<"tts">>, Syms>>} ELSE {})
               [] Kind = "pmcfg" -> {<<<<"tts">>>>} \cup (IF What = "c2f" THEN {<<<<"tts">>, Pos_(g)>>} ELSE {})
Step(op, r, w, m) == [op |-> op, word |-> w, lim |-> m + 3, cut |-> FALSE, beam |-> 0, wide |-> FALSE, exact |-> FALSE]
StepsOf(a, ch, w) ==
  LET as == Chain(a, ch)
      main == IF What = "approx" THEN as[2] ELSE a
  IN IF \E k \in 1..Len(as) : ~Finite(as[k], w) THEN <<>>
     ELSE LET m == Cardinality(Runs(main, w, 0)) s == Step("recog", 0, w, m)
          IN IF What # "beam" THEN <<s>>
             ELSE LET all == All(a, w, {Start(a)})
                  IN [k \in 1..6 |-> [s EXCEPT !.op = "beam", !.beam = IF k = 6 THEN all + 1 ELSE k, !.wide = (k = 6 \/ k > all), !.exact = TRUE]]
Ws == LET S == WordsUpTo({1, 2}, WL) IN SetToSeq(S)
Case_(kind, a, ch, more) == [kind |-> kind, what |-> IF What = "beam" THEN "run" ELSE What, chain |-> ch, words |-> FlattenSeq([k \in 1..Len(Ws) |-> StepsOf(a, ch, Ws[k])])] @@ more
Explicit(a) == IF a.kind = "pda" THEN [trans |-> a.tr, init |-> a.init]
               ELSE IF a.kind = "tsa" THEN [trans |-> a.tr, init |-> 0]
               ELSE [trans |-> a.tr, init |-> a.init, fin |-> SetToSeq(a.fin)]
Cases_(x_) ==
  CASE Kind = "cfg" -> UNION {{Case_("cfg", Built(OfCfg(g)), ch, [g |-> g]) : ch \in Chains(g)} : g \in Cfgs(N)}
    [] Kind = "pmcfg" -> UNION {{Case_("pmcfg", OfPmcfg(g), ch, [g |-> g]) : ch \in Chains(g)} : g \in Pmcfgs(N)}
    [] Kind = "pda" -> UNION {{Case_("pda", Built(a), ch, Explicit(a)) : ch \in Chains(0)} : a \in Pdas(N)}
    [] Kind = "tsa" -> UNION {{Case_("tsa", a, ch, Explicit(a)) : ch \in Chains(0)} : a \in Tsas(N)}
    [] Kind = "fsa" -> UNION {{Case_("fsa", a, ch, Explicit(a)) : ch \in Chains(0)} : a \in Fsas(N)}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq({q \in Cases_(0) : q.words # <<>>}))
GenSpec == dummy = 0 /\ [][UNCHANGED dummy]_dummy
=============================================================================
