----------------------------- MODULE CsParsingPool -----------------------------
EXTENDS CsParsing
\* pools of rules; exponents are multiples of 12, so that components have whole shares
V_(i, j) == <<"V", i, j>>
T_(t) == <<"T", t>>
R_(h, t, c, e) == [head |-> h, tail |-> t, comp |-> c, e |-> e]
PoolA == { R_("S", <<>>, <<<<T_(1)>>>>, 12), R_("S", <<>>, <<<<T_(2)>>>>, 24), R_("S", <<"B">>, <<<<V_(0, 0)>>>>, 0),
           R_("S", <<"S", "S">>, <<<<V_(0, 0), V_(1, 0)>>>>, 12), R_("S", <<"S", "B">>, <<<<V_(1, 0), V_(0, 0)>>>>, 12),
           R_("S", <<"A">>, <<<<V_(0, 0), V_(0, 1)>>>>, 0), R_("S", <<"A">>, <<<<V_(0, 1), V_(0, 0)>>>>, 12),
           R_("S", <<"A", "B">>, <<<<V_(0, 0), V_(1, 0), V_(0, 1)>>>>, 24),
           R_("S", <<"A", "A">>, <<<<V_(0, 0), V_(1, 0), V_(0, 1), V_(1, 1)>>>>, 12),
           R_("A", <<"B", "B">>, <<<<V_(0, 0)>>, <<V_(1, 0)>>>>, 12), R_("A", <<"B", "S">>, <<<<V_(1, 0)>>, <<V_(0, 0)>>>>, 24),
           R_("A", <<"A", "B">>, <<<<V_(1, 0), V_(0, 0)>>, <<V_(0, 1)>>>>, 24), R_("A", <<"A", "B", "B">>, <<<<V_(0, 0), V_(2, 0)>>, <<V_(1, 0), V_(0, 1)>>>>, 12),
           R_("B", <<>>, <<<<T_(1)>>>>, 12), R_("B", <<>>, <<<<T_(2)>>>>, 12), R_("B", <<"B", "B">>, <<<<V_(0, 0), V_(1, 0)>>>>, 36) }
\* with chains that go round
PoolC == { R_("S", <<>>, <<<<T_(1)>>>>, 12), R_("S", <<"S">>, <<<<V_(0, 0)>>>>, 12), R_("S", <<"B">>, <<<<V_(0, 0)>>>>, 0), R_("B", <<"S">>, <<<<V_(0, 0)>>>>, 24),
           R_("B", <<>>, <<<<T_(1)>>>>, 0), R_("S", <<"A">>, <<<<V_(0, 0), V_(0, 1)>>>>, 12), R_("A", <<"A">>, <<<<V_(0, 1)>>, <<V_(0, 0)>>>>, 24),
           R_("A", <<"B", "B">>, <<<<V_(0, 0)>>, <<V_(1, 0)>>>>, 12) }
RECURSIVE SubsUpTo(_, _)
SubsUpTo(S, n) == IF n = 0 THEN {{}} ELSE LET P == SubsUpTo(S, n - 1) IN P \cup {p \cup {x} : p \in P, x \in S}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : TRUE IN <<m>> \o Listed(S \ {m})
Used(R) == {"S"} \cup UNION {{r.tail[k] : k \in 1..Len(r.tail)} : r \in R}
Complete(R) == \A a \in Used(R) : \E r \in R : r.head = a
Grammars(P, n) == {[rules |-> Listed(R), init |-> "S"] : R \in {R \in SubsUpTo(P, n) : R # {} /\ Complete(R) /\ \A r \in R : r.head \in Used(R)}}
RECURSIVE WordsN(_)
WordsN(n) == IF n = 0 THEN {<<>>} ELSE {Append(w, t) : w \in WordsN(n - 1), t \in {1, 2}}
Words_(n) == UNION {WordsN(k) : k \in 0..n}
=============================================================================
