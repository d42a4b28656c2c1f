---------------------------- MODULE CsParsingGen ----------------------------
(* Every grammar of the pool with every word: GEN_MODE "exact" (no limits), "limits" (candidates, beams, thresholds; estimates), *)
(* "chains" (grammars with infinitely many derivations).                                                                        *)
EXTENDS CsParsingPool, SequencesExt, Json, IOUtils
CONSTANTS NRules, NWord
VARIABLE x
RECURSIVE MExp(_, _, _, _)
\* the least exponent (a multiple of 12, at most 240) up to which there are n candidates
MExp(h, w, n, m) == IF m >= 240 \/ Cardinality(Candidates(h, w, m)) >= n THEN m ELSE MExp(h, w, n, m + 12)
Step_(op, w, lim, cn, beam, delta, m, al) == [op |-> op, word |-> w, lim |-> lim, cand |-> cn, beam |-> beam, delta |-> delta, m |-> m, all |-> al]
Reload == [op |-> "reload"]
SetSeq(S) == SetToSeq(S)
ExactSteps(h) == LET ws == SetSeq(Words_(NWord))
                     s(w) == <<Step_("parse", w, 1000, -1, -1, -1, -1, FALSE), Step_("debug", w, 0, -1, -1, -1, -1, FALSE)>>
                 IN Cat([k \in 1..Len(ws) |-> s(ws[k])]) \o <<Reload>> \o Cat([k \in 1..Len(ws) |-> <<s(ws[k])[1]>>])
LimitSteps(h) == LET ws == SetSeq(WordsN(NWord))
                     s(w) == <<Step_("parse", w, 2, -1, -1, -1, -1, FALSE), Step_("parse", w, 1000, 0, -1, -1, -1, FALSE), Step_("parse", w, 1000, 1, -1, -1, -1, FALSE), Step_("parse", w, 1000, 2, -1, -1, -1, FALSE),
                               Step_("debug", w, 0, 0, -1, -1, -1, FALSE), Step_("debug", w, 0, 1, -1, -1, -1, FALSE), Step_("debug", w, 0, 2, -1, -1, -1, FALSE),
                               Step_("parse", w, 1000, -1, 1, -1, -1, FALSE), Step_("parse", w, 1000, -1, 2, -1, -1, FALSE), Step_("parse", w, 1000, -1, 3, -1, -1, FALSE), Step_("parse", w, 1000, 1, 100, -1, -1, FALSE),
                               Step_("parse", w, 1000, -1, -1, 0, -1, FALSE), Step_("parse", w, 1000, -1, -1, 13, -1, FALSE), Step_("parse", w, 1000, 2, 2, 30, -1, FALSE),
                               Step_("debug", w, 0, -1, 1, -1, -1, FALSE), Step_("debug", w, 0, -1, -1, 0, -1, FALSE)>>
                 IN Cat([k \in 1..Len(ws) |-> s(ws[k])])
ChainSteps(h) == LET ws == SetSeq(Words_(2))
                     s(w) == LET f == Masked(h, w) z == MExp(f, w, 6, 12) al == Cardinality(Candidates(f, w, z)) < 6
                             IN <<Step_("parse", w, 1000, 6, -1, -1, z, al), Step_("parse", w, 2, 6, -1, -1, z, al), Step_("debug", w, 0, 6, -1, -1, z, al), Step_("parse", w, 1000, 4, 1, -1, z, al)>>
                 IN Cat([k \in 1..Len(ws) |-> s(ws[k])]) \o <<Reload>> \o s(<<1>>) \o s(<<1, 1>>)
Case_(h, est, steps) == [rules |-> h.rules, init |-> h.init, est |-> est, steps |-> steps]
Exacts(x_) == {Case_(h, 0, ExactSteps(h)) : h \in {h \in Grammars(PoolA, NRules) : Acyclic(h)}}
Limits(x_) == {Case_(h, est, LimitSteps(h)) : h \in {h \in Grammars(PoolA, NRules) : Acyclic(h)}, est \in {0, 2, 4}}
Chains(x_) == {Case_(h, est, ChainSteps(h)) : h \in Grammars(PoolC, NRules), est \in {0, 3}}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(CASE IOEnv.GEN_MODE = "exact" -> Exacts(0) [] IOEnv.GEN_MODE = "limits" -> Limits(0) [] IOEnv.GEN_MODE = "chains" -> Chains(0)))
GenSpec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
