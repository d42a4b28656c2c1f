------------------------------ MODULE TreebankMC ------------------------------
(* Grammars written line by line in every layout of the tools' formats, read back line by line. *)
EXTENDS Treebank
CONSTANTS MaxLines
S == <<83>>  A1 == <<65, 95, 49>>  P == <<80, 124, 60>>  W == <<119, 49, 47, 50>>
Ones(c) == [m \in 1..Len(c) |-> [k \in 1..Len(c[m]) |-> c[m][k][2]]]
RECURSIVE Join(_, _), Digits(_)
Join(xs, s) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o s \o Join(Tail(xs), s)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
V(i, j) == <<"V", i, j>>
Comp1 == {<<<<V(0, 0)>>>>, <<<<V(0, 0), V(0, 1)>>, <<V(0, 2)>>>>}
Comp2 == {<<<<V(0, 0), V(1, 0)>>>>, <<<<V(1, 0)>>, <<V(0, 0), V(1, 1), V(0, 1)>>>>}
Counts == {<<1, 1>>, <<3, 1>>, <<5, 4>>, <<1, 6>>}
Constits == {Rule(h, t, c, w) : h \in {S, A1}, t \in {<<A1>>, <<P>>}, c \in Comp1, w \in Counts} \cup {Rule(h, t, c, w) : h \in {S}, t \in {<<A1, P>>, <<P, S>>}, c \in Comp2, w \in Counts}
LexRules == {Rule(p, <<>>, <<<<<<"T", W>>>>>>, w) : p \in {P, A1}, w \in Counts}
CountText(w) == IF w[2] = 1 THEN Digits(w[1]) ELSE Digits(w[1]) \o <<SLASH>> \o Digits(w[2])
YieldText(c) == Join([m \in 1..Len(c) |-> [k \in 1..Len(c[m]) |-> 48 + c[m][k][2]]], <<COMMA>>)
ConstText(r, b) == Join(<<r.head>> \o r.tail \o <<YieldText(r.comp), CountText(r.w)>>, b)
LexText(r, b) == Join(<<r.comp[1][1][2], r.head, CountText(r.w)>>, b)
BoolText(c) == <<91, 91>> \o Join([m \in 1..Len(c) |-> <<91>> \o Join([k \in 1..Len(c[m]) |-> IF c[m][k][2] = 0 THEN FALSE_ ELSE TRUE_], SEP) \o <<93>>], SEP) \o <<93, 93>>
ClauseText(r, b) == Digits(r.w[1]) \o b \o <<48, DOT, 50 + r.w[2], 53>> \o <<COLON>> \o r.head \o b \o ARROW \o b \o Join(r.tail, b) \o b \o BoolText(r.comp)
Bs == {<<TAB>>, <<SP>>, <<SP, TAB>>}

VARIABLES kind, want, text, b, reading, rest, got
vars == <<kind, want, text, b, reading, rest, got>>
Init == kind \in {"const", "lex", "rparse"} /\ want = <<>> /\ text = <<>> /\ b \in Bs /\ reading = FALSE /\ rest = <<>> /\ got = <<>>
Pool == CASE kind = "lex" -> LexRules [] OTHER -> Constits
Line(r) == CASE kind = "const" -> ConstText(r, b) [] kind = "lex" -> LexText(r, b) [] kind = "rparse" -> ClauseText(r, b)
Write == /\ ~reading /\ Len(want) < MaxLines
         /\ \E r \in Pool : want' = Append(want, r) /\ text' = (IF want = <<>> THEN <<>> ELSE text \o <<LF>>) \o Line(r)
         /\ UNCHANGED <<kind, b, reading, rest, got>>
Start == ~reading /\ want # <<>> /\ reading' = TRUE /\ rest' = Split(text, {LF}) /\ UNCHANGED <<kind, want, text, b, got>>
ReadLine == /\ reading /\ rest # <<>>
            /\ got' = got \o (CASE kind = "const" -> <<Constituent(Head(rest)).v>> [] kind = "lex" -> LexLine(Head(rest)).v [] kind = "rparse" -> <<Clause(Head(rest)).v>>)
            /\ rest' = Tail(rest) /\ UNCHANGED <<kind, want, text, b, reading>>
Next == Write \/ Start \/ ReadLine
Spec == Init /\ [][Next]_vars
Whole == CASE kind = "const" -> Constituents(text) [] kind = "lex" -> Lexicon(text) [] kind = "rparse" -> Clauses(text)
SameBut(r, q) == r.head = q.head /\ r.tail = q.tail /\ r.comp = q.comp
Found == (reading /\ rest = <<>>) => /\ Whole = Ok(got) /\ Len(got) = Len(want)
                        /\ \A k \in 1..Len(got) : IF kind = "rparse" THEN SameBut(got[k], want[k]) /\ got[k].w = <<250000 + 100000 * (want[k].w[2] + 2) - 200000>> ELSE got[k] = want[k]
\* the shares of a nonterminal's rules sum up to one
RECURSIVE Nums(_, _)
Nums(rs, h) == IF rs = <<>> THEN 0 ELSE Nums(Tail(rs), h) + (IF Head(rs).head = h THEN Share(want, Head(rs))[1] ELSE 0)
SumToOne == (want # <<>> /\ kind # "rparse") => \A h \in Heads(want) :
   LET den == Share(want, CHOOSE r \in {want[k] : k \in 1..Len(want)} : r.head = h)[2] IN den > 0 /\ Nums(want, h) = den
\* a line that is cut inside its fields is an error, or another complete line with a shorter count
CutFails == (Len(want) = 1 /\ ~reading) => \A i \in 1..(Len(text) - 1) :
   LET r == (CASE kind = "const" -> Constituents(SubSeq(text, 1, i)) [] kind = "lex" -> Lexicon(SubSeq(text, 1, i)) [] kind = "rparse" -> Clauses(SubSeq(text, 1, i)))
   IN IF kind = "rparse" THEN r = Err ELSE r.k = "ok" => SameBut(r.v[1], want[1])
DefaultLex == (kind = "const" /\ want # <<>>) => (OnlyRight(want) \cap Heads(want) = {} /\ \A k \in 1..Len(want) : \A i \in 1..Len(want[k].tail) : want[k].tail[i] \in OnlyRight(want) \cup Heads(want))
=============================================================================
