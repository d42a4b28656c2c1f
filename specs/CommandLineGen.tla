---------------------------- MODULE CommandLineGen ----------------------------
(* Every grammar of the pool with all words in one session. *)
EXTENDS CsParsingPool, SequencesExt, Json, IOUtils
CONSTANTS NRules, NWord
VARIABLE x
\* a sentence of a single word must not be an initial rule by itself: such a tree cannot be exported
Single(h) == \E r \in Rules(h) : h.rules[r].head = h.init /\ h.rules[r].tail = <<>>
Sentences(h) == LET ws == SetToSeq({w \in Words_(NWord) : Len(w) # 1 \/ ~Single(h)})
                IN [k \in 1..Len(ws) |-> [id |-> 3 * k + 1, word |-> ws[k], toks |-> [j \in 1..Len(ws[k]) |-> "t" \o ToString(j)], blank |-> " "]]
Parse_(h, k, cn, f, d, p, i) == [op |-> "parse", k |-> k, beam |-> -1, delta |-> -1, cand |-> cn, fall |-> f, debug |-> d, pos |-> p, ids |-> i, open |-> FALSE, lines |-> Sentences(h)]
Leads(h, s) == UNION {IF h.rules[r].tail = <<>> THEN {} ELSE LET u == h.rules[r].comp[s[2] + 1][1] IN {<<h.rules[r].tail[u[2] + 1], u[3]>>} : r \in {r \in Rules(h) : h.rules[r].head = s[1] /\ s[2] < Len(h.rules[r].comp)}}
RECURSIVE ReachL(_, _, _)
ReachL(h, F, S) == LET M == UNION {Leads(h, s) : s \in F} \ S IN IF M = {} THEN S ELSE ReachL(h, M, S \cup M)
\* tree-stack recognition ends: no component begins with itself; the components of each successor are used in order
LeftFree(h) == \A s \in States(h) : LET M == Leads(h, s) IN s \notin ReachL(h, M, M)
Ordered_(h) == \A r \in Rules(h) : LET v == Cat(h.rules[r].comp) IN \A a, b \in 1..Len(v) : (a < b /\ v[a][1] = "V" /\ v[b][1] = "V" /\ v[a][2] = v[b][2]) => v[a][3] < v[b][3]
Steps(h) == <<[op |-> "extract", est |-> -1, zip |-> FALSE, stdin |-> TRUE], Parse_(h, -1, -1, FALSE, FALSE, FALSE, FALSE), Parse_(h, 3, 2, TRUE, FALSE, TRUE, FALSE), Parse_(h, 1, -1, FALSE, TRUE, FALSE, TRUE)>>
            \o (IF LeftFree(h) /\ Ordered_(h) THEN <<[op |-> "mcfg", k |-> 2, beam |-> -1, open |-> FALSE, lines |-> Sentences(h)]>> ELSE <<>>)
Cases_(x_) == {[rules |-> h.rules, init |-> h.init, names |-> <<"a", "b">>, steps |-> Steps(h)] : h \in {h \in Grammars(PoolA, NRules) : Acyclic(h)}}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases_(0)))
GenSpec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
