------------------------------- MODULE Treebank -------------------------------
(***************************************************************************)
(* Grammar files of treebank tools, as code points: discodop constituents  *)
(* and lexicons, rparse clauses.  A reading gives                          *)
(*   [k |-> "ok", v |-> value], [k |-> "err"], or [k |-> "open", v |-> value] *)
(* where "open" is laxly written: an error, or the value.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LF == 10  TAB == 9  SP == 32  CR == 13  COMMA == 44  SLASH == 47  COLON == 58  DOT == 46
Blank == {SP, TAB}
White == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
Digit == 48..57
Ok(v) == [k |-> "ok", v |-> v]
Open(v) == [k |-> "open", v |-> v]
Err == [k |-> "err"]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE While(_, _, _), Last(_, _)
While(t, i, S) == IF i <= Len(t) /\ t[i] \in S THEN While(t, i + 1, S) ELSE i
Last(t, i) == IF i > 0 /\ t[i] \in White THEN Last(t, i - 1) ELSE i
TrimEnd(t) == SubSeq(t, 1, Last(t, Len(t)))
Trim(t) == SubSeq(t, While(t, 1, White), Last(t, Len(t)))
RECURSIVE SplitAt(_, _, _, _)
SplitAt(t, S, i, start) == IF i > Len(t) THEN <<SubSeq(t, start, Len(t))>>
                           ELSE IF t[i] \in S THEN <<SubSeq(t, start, i - 1)>> \o SplitAt(t, S, i + 1, i + 1)
                           ELSE SplitAt(t, S, i + 1, start)
Split(t, S) == SplitAt(t, S, 1, 1)
\* the fields of a line, which are separated by blanks
Fields(l) == SelectSeq(Split(l, Blank), LAMBDA f : f # <<>>)
AllIn(t, S) == \A k \in 1..Len(t) : t[k] \in S
RECURSIVE Num(_, _)
Num(w, n) == IF w = <<>> THEN n ELSE Num(Tail(w), 10 * n + Head(w) - 48)
Lax(rs) == \E k \in 1..Len(rs) : rs[k].k = "open"
Bad(rs) == \E k \in 1..Len(rs) : rs[k].k = "err"
Vals(rs) == [k \in 1..Len(rs) |-> rs[k].v]
\* all readings together
All(rs, f(_)) == IF Bad(rs) THEN Err ELSE IF Lax(rs) THEN Open(f(Vals(rs))) ELSE Ok(f(Vals(rs)))
\* lines: white space at the end of the text is ignored; blank lines and white space around a line are lax
ReadLines(t, rd(_)) ==
   LET x == TrimEnd(t)
       ls == IF x = <<>> THEN <<>> ELSE Split(x, {LF})
       one(l) == LET y == Trim(l)
                 IN IF y = <<>> THEN Open(<<>>)
                    ELSE LET r == rd(y) IN IF r.k = "err" THEN Err ELSE IF y # l \/ r.k = "open" THEN Open(<<r.v>>) ELSE Ok(<<r.v>>)
   IN All([k \in 1..Len(ls) |-> one(ls[k])], Flat)

--------------------------------------------------------------------------
\* counts: <<numerator, denominator>>; <<0, 0>> if too large to compare
Count(w) == LET ps == Split(w, {SLASH})
            IN IF Len(ps) > 2 \/ \E k \in 1..Len(ps) : ps[k] = <<>> \/ ~AllIn(ps[k], Digit) THEN Err
               ELSE IF \E k \in 1..Len(ps) : Len(ps[k]) > 6 THEN Ok(<<0, 0>>)
               ELSE Ok(<<Num(ps[1], 0), IF Len(ps) = 2 THEN Num(ps[2], 0) ELSE 1>>)
\* yield functions: the k-th bit b of a kind stands for the next component of successor b
RECURSIVE Bits(_, _, _, _)
Bits(bs, i, j, acc) == IF bs = <<>> THEN <<acc, i, j>>
                       ELSE IF Head(bs) = 48 THEN Bits(Tail(bs), i + 1, j, Append(acc, <<"V", 0, i>>))
                       ELSE Bits(Tail(bs), i, j + 1, Append(acc, <<"V", 1, j>>))
RECURSIVE Comps(_, _, _)
Comps(cs, i, j) == IF cs = <<>> THEN <<>> ELSE LET b == Bits(Head(cs), i, j, <<>>) IN <<b[1]>> \o Comps(Tail(cs), b[2], b[3])
Yields(y) == LET cs == Split(y, {COMMA})
             IN IF ~AllIn(y, {48, 49, COMMA}) THEN Err
                ELSE IF \E k \in 1..Len(cs) : cs[k] = <<>> \/ Len(cs[k]) > 64 THEN Open(Comps(cs, 0, 0)) ELSE Ok(Comps(cs, 0, 0))
Rule(h, t, c, w) == [head |-> h, tail |-> t, comp |-> c, w |-> w]
Constituent(l) ==
   LET f == Fields(l) n == Len(f)
   IN IF n \notin {4, 5} \/ \E k \in 1..Len(l) : l[k] \in White \ Blank THEN Err
      ELSE All(<<Yields(f[n - 1]), Count(f[n])>>, LAMBDA v : Rule(f[1], SubSeq(f, 2, n - 2), v[1], v[2]))
Constituents(t) == ReadLines(t, Constituent)
LexLine(l) ==
   LET f == Fields(l) n == Len(f)
   IN IF n < 3 \/ n % 2 = 0 \/ \E k \in 1..Len(l) : l[k] \in White \ Blank THEN Err
      ELSE All([k \in 1..((n - 1) \div 2) |-> Count(f[2 * k + 1])],
               LAMBDA v : [k \in 1..Len(v) |-> Rule(f[2 * k], <<>>, <<<<<<"T", f[1]>>>>>>, v[k])])
Lexicon(t) == LET r == ReadLines(t, LexLine) IN IF r.k = "err" THEN Err ELSE [r EXCEPT !.v = Flat(@)]
Heads(rs) == {rs[k].head : k \in 1..Len(rs)}
OnlyRight(rs) == UNION {{rs[k].tail[i] : i \in 1..Len(rs[k].tail)} : k \in 1..Len(rs)} \ Heads(rs)
ROOT == <<82, 79, 79, 84>>

\* relative frequencies
RECURSIVE Gcd(_, _), LcmAll(_), SumAll(_)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
LcmAll(qs) == IF qs = <<>> THEN 1 ELSE LET m == LcmAll(Tail(qs)) IN IF m = 0 \/ Head(qs) = 0 \/ Head(qs) > 1000 \/ m > 1000 THEN 0 ELSE (m \div Gcd(m, Head(qs))) * Head(qs)
SumAll(ns) == IF ns = <<>> THEN 0 ELSE LET m == SumAll(Tail(ns)) IN IF m > 200000 \/ Head(ns) > 200000 THEN 400000 ELSE m + Head(ns)
\* the share of rule r among the rules with its head: <<numerator, denominator>>, <<0, 0>> if it is out of bounds
Share(rs, r) == LET ws == LET s == SelectSeq(rs, LAMBDA q : q.head = r.head) IN [k \in 1..Len(s) |-> s[k].w]
                    m == LcmAll([k \in 1..Len(ws) |-> ws[k][2]])
                IN IF m \in 1..2000 /\ \A k \in 1..Len(ws) : ws[k][1] <= 200000 \div (m \div ws[k][2])
                   THEN LET d == SumAll([k \in 1..Len(ws) |-> ws[k][1] * (m \div ws[k][2])])
                        IN IF d \in 1..200000 THEN <<r.w[1] * (m \div r.w[2]), d>> ELSE <<0, 0>>
                   ELSE <<0, 0>>
\* num / den in units of 10^-8
Frac8(p) == LET q1 == (p[1] * 10000) \div p[2] r1 == (p[1] * 10000) % p[2] IN q1 * 10000 + (r1 * 10000) \div p[2]
Close(n, m) == n - m \in -3..3

--------------------------------------------------------------------------
\* rparse: number weight:lhs --> rhs [rhs] [[[true, false], ...]]
Decimal(w) == LET ps == Split(w, {DOT})
              IN IF Len(ps) \in 1..2 /\ \A k \in 1..Len(ps) : ps[k] # <<>> /\ AllIn(ps[k], Digit)
                 THEN IF Len(ps[1]) <= 3 /\ (Len(ps) = 1 \/ Len(ps[Len(ps)]) <= 6)
                      THEN Ok(<<Num(ps[1], 0) * 1000000 + (IF Len(ps) = 1 THEN 0 ELSE LET RECURSIVE P(_, _)
                                                                                        P(x, n) == IF n = 0 THEN x ELSE P(10 * x, n - 1)
                                                                                    IN P(Num(ps[2], 0), 6 - Len(ps[2])))>>)
                      ELSE Ok(<<>>)
                 \* other notations of numbers are not compared
                 ELSE IF AllIn(w, Digit \cup {DOT, 43, 45, 69, 101} \cup {73, 78, 84, 89, 105, 110, 102, 97, 116, 121}) THEN Open(<<>>) ELSE Err
TRUE_ == <<116, 114, 117, 101>>  FALSE_ == <<102, 97, 108, 115, 101>>
SEP == <<44, 32>>
StartsWith(t, i, p) == i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(p) - 1) = p
OPENS == <<91, 91, 91>>
\* sequence of bits and position after it, or <<>>
RECURSIVE Bools(_, _, _), BoolComps(_, _, _)
Bools(t, i, acc) ==
   IF StartsWith(t, i, <<93>>) /\ acc = <<>> THEN <<acc, i + 1>>
   ELSE LET j == IF StartsWith(t, i, TRUE_) THEN i + 4 ELSE IF StartsWith(t, i, FALSE_) THEN i + 5 ELSE 0
            b == IF j = i + 4 THEN 49 ELSE 48
        IN IF j = 0 THEN <<>>
           ELSE IF StartsWith(t, j, SEP) THEN Bools(t, j + 2, Append(acc, b))
           ELSE IF StartsWith(t, j, <<93>>) THEN <<Append(acc, b), j + 1>> ELSE <<>>
BoolComps(t, i, acc) ==
   IF ~StartsWith(t, i, <<91>>) THEN Err
   ELSE LET c == Bools(t, i + 1, <<>>)
        IN IF c = <<>> THEN Err
           ELSE IF StartsWith(t, c[2], SEP) THEN BoolComps(t, c[2] + 2, Append(acc, c[1]))
           ELSE IF SubSeq(t, c[2], Len(t)) = <<93, 93>>
                THEN LET cs == Append(acc, c[1]) IN IF \E k \in 1..Len(cs) : cs[k] = <<>> THEN Open(Comps(cs, 0, 0)) ELSE Ok(Comps(cs, 0, 0))
           ELSE Err
ARROW == <<45, 45, 62>>
Clause(l) ==
   LET y == {i \in 1..Len(l) : StartsWith(l, i, OPENS) /\ i > 1 /\ l[i - 1] \in Blank}
       i == CHOOSE i \in y : \A j \in y : i <= j
       f == Fields(SubSeq(l, 1, i - 1)) n == Len(f)
       ps == Split(f[2], {COLON})
       lhs == SubSeq(f[2], Len(ps[1]) + 2, Len(f[2]))
   IN IF y = {} THEN Err
      ELSE IF n \notin {4, 5} THEN Err
      ELSE IF f[3] # ARROW \/ ~AllIn(f[1], Digit) \/ Len(ps) < 2 \/ lhs = <<>> \/ ps[1] = <<>> \/ \E k \in 1..(i - 1) : l[k] \in White \ Blank THEN Err
      ELSE All(<<Decimal(ps[1]), BoolComps(l, i + 2, <<>>)>>, LAMBDA v : Rule(lhs, SubSeq(f, 4, n), v[2], v[1]))
\* a file without any clause is an error
Clauses(t) == LET r == ReadLines(t, Clause) IN IF r.k # "err" /\ r.v = <<>> THEN Err ELSE r
VROOT1 == <<86, 82, 79, 79, 84, 49>>
=============================================================================
