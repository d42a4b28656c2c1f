----------------------------- MODULE GrammarTokens -----------------------------
(***************************************************************************)
(* Tokens, lists, weights and lines of the texts that the crate reads.  A  *)
(* text is a sequence of code points.  Reading has one of three outcomes:  *)
(*   "ok"   - the documented format fixes the result (field v);            *)
(*   "fail" - a required part is missing or unreadable: an error is due;   *)
(*   "free" - the documents leave it open (e.g. missing separators).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SP == 32  TAB == 9  CR == 13  LF == 10  QUOTE == 34  BSL == 92  PCT == 37  HASH == 35  COMMA == 44
ARROW == 8594  LBR == 91  RBR == 93  LPAR == 40  RPAR == 41  DASH == 45  GT == 62  EQ == 61  DOT == 46
Stop == {SP, BSL, QUOTE, DASH, ARROW, COMMA, 59, RPAR, RBR, PCT, HASH}
Blank == {SP, TAB}
White == {SP, TAB, CR, LF, 11, 12}
\* white space beyond ASCII: whether it counts at the ends of a line is left open
FarWhite == {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
Digit == 48..57
cINITIAL == <<105, 110, 105, 116, 105, 97, 108, 58>>    \* initial:
cNT == <<78, 116>>   cT == <<84>>   cVAR == <<86, 97, 114>>

At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
Starts(t, i, p) == i + Len(p) - 1 <= Len(t) /\ \A k \in 1..Len(p) : t[i + k - 1] = p[k]
RECURSIVE SkipB(_, _)
SkipB(t, i) == IF At(t, i) \in Blank THEN SkipB(t, i + 1) ELSE i
RECURSIVE WhileNot(_, _, _)
WhileNot(t, i, S) == IF i <= Len(t) /\ t[i] \notin S THEN WhileNot(t, i + 1, S) ELSE i
RECURSIVE While(_, _, _)
While(t, i, S) == IF i <= Len(t) /\ t[i] \in S THEN While(t, i + 1, S) ELSE i

\* results: v the value read, i the position after it, fr TRUE if only a lenient reading reads this
Ok(v, i, fr) == [s |-> "ok", v |-> v, i |-> i, fr |-> fr]
Fail == [s |-> "fail"]
Free == [s |-> "free"]

--------------------------------------------------------------------------
\* symbols
RECURSIVE QuoteEnd(_, _)
QuoteEnd(t, i) == CASE At(t, i) = -1 -> 0
                    [] At(t, i) = QUOTE -> i
                    [] At(t, i) = BSL -> IF At(t, i + 1) \in {QUOTE, BSL} THEN QuoteEnd(t, i + 2) ELSE 0
                    [] OTHER -> QuoteEnd(t, i + 1)
HasArrowInside(w) == \E k \in 1..(Len(w) - 1) : w[k] = EQ /\ w[k + 1] = GT
Token(t, i) ==
  IF At(t, i) = QUOTE
  THEN LET e == QuoteEnd(t, i + 1)
       IN IF e = 0 THEN Fail ELSE IF e = i + 1 THEN Free ELSE Ok(SubSeq(t, i + 1, e - 1), e + 1, FALSE)
  ELSE LET e == WhileNot(t, i, Stop) w == SubSeq(t, i, e - 1)
       IN IF e = i THEN Fail
          ELSE IF HasArrowInside(w) THEN Free
          ELSE Ok(w, e, \E k \in 1..Len(w) : w[k] \in White)
\* a symbol after a key word: the key word must be set off, unless the symbol is quoted
Keyed(t, i, mk(_)) == LET j == SkipB(t, i) r == Token(t, j)
                      IN IF r.s # "ok" THEN r ELSE Ok(mk(r.v), r.i, r.fr \/ (j = i /\ At(t, j) # QUOTE))
RECURSIVE Num(_, _)
Num(w, n) == IF w = <<>> THEN n ELSE Num(Tail(w), 10 * n + Head(w) - 48)
\* the index of a variable; indices beyond nine digits are out of the model (20 digits do not fit a machine word)
Index(t, i) == LET e == While(t, i, Digit) w == SubSeq(t, i, e - 1)
               IN IF e = i THEN Fail ELSE IF Len(w) > 20 /\ w[1] # 48 THEN Fail ELSE IF Len(w) > 9 THEN Free ELSE Ok(Num(w, 0), e, FALSE)

--------------------------------------------------------------------------
\* lists of elements of a kind: "tok", "letter" (CFG), "vart" (PMCFG), "comp" (component)
RECURSIVE Elem(_, _, _), List(_, _, _, _, _, _)
Vec(t, i, kind, open, close) ==
  IF At(t, i) # open THEN Fail ELSE List(t, SkipB(t, i + 1), kind, close, <<>>, FALSE)
List(t, i, kind, close, acc, fr) ==
  LET sep == At(t, i) = COMMA
      e == Elem(t, IF sep THEN SkipB(t, i + 1) ELSE i, kind)
  IN IF e.s = "ok" THEN List(t, SkipB(t, e.i), kind, close, Append(acc, e.v), fr \/ e.fr \/ (sep = (acc = <<>>)))
     ELSE IF e.s = "free" THEN Free
     ELSE IF At(t, i) = close THEN Ok(acc, i + 1, fr) ELSE Fail
Elem(t, i, kind) ==
  CASE kind = "tok" -> Token(t, i)
    [] kind = "letter" -> IF Starts(t, i, cNT) THEN Keyed(t, i + 2, LAMBDA v : <<"N", v>>)
                          ELSE IF Starts(t, i, cT) THEN Keyed(t, i + 1, LAMBDA v : <<"T", v>>)
                          ELSE Fail
    [] kind = "vart" -> IF Starts(t, i, cVAR)
                        THEN LET j == SkipB(t, i + 3) x == Index(t, j)
                             IN IF x.s # "ok" THEN x
                                ELSE LET k == SkipB(t, x.i) y == Index(t, k)
                                     IN IF y.s # "ok" THEN y ELSE Ok(<<"V", x.v, y.v>>, y.i, j = i + 3 \/ k = x.i)
                        ELSE IF Starts(t, i, cT) THEN Keyed(t, i + 1, LAMBDA v : <<"T", v>>)
                        ELSE Fail
    [] kind = "comp" -> Vec(t, i, "vart", LBR, RBR)

--------------------------------------------------------------------------
\* weights: decimals with at most six digits after the point are read as millionths
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Lower(x) == IF x \in 65..90 THEN x + 32 ELSE x
Letters == (65..90) \cup (97..122)
Named == {<<105, 110, 102>>, <<110, 97, 110>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}   \* inf, nan, infinity
IsNamed(w) == [k \in 1..Len(w) |-> Lower(w[k])] \in Named
Decimal(w) ==
  LET e == While(w, 1, Digit)
      int == SubSeq(w, 1, e - 1)
      frac == SubSeq(w, e + 1, Len(w))
  IN IF Len(int) \in 1..4 /\ e = Len(w) + 1 /\ Num(int, 0) <= 2000 THEN Ok(Num(int, 0) * 1000000, 0, FALSE)
     ELSE IF Len(int) \in 1..4 /\ Num(int, 0) < 2000 /\ w[e] = DOT /\ Len(frac) \in 1..6 /\ \A k \in 1..Len(frac) : frac[k] \in Digit
          THEN Ok(Num(int, 0) * 1000000 + Num(frac, 0) * Pow10(6 - Len(frac)), 0, FALSE)
     ELSE Free
Dots(w) == Cardinality({k \in 1..Len(w) : w[k] = DOT})
Unreadable(w) == /\ ~IsNamed(w) /\ ~IsNamed(Tail(w))
                 /\ \/ \A k \in 1..Len(w) : w[k] \notin Digit
                    \/ Dots(w) > 1
                    \/ \E k \in 1..Len(w) : w[k] \in Letters /\ Lower(w[k]) # 101
Weight(w) == IF w = <<>> THEN Free ELSE IF PCT \in {w[k] : k \in 2..Len(w)} \/ \E k \in 1..Len(w) : w[k] \in White THEN Free
             ELSE IF Unreadable(w) THEN Fail ELSE Decimal(w)
One == 1000000

--------------------------------------------------------------------------
\* rules; kind is "cfg" or "pmcfg"
Arrow(t, i) == IF At(t, i) = ARROW THEN i + 1
               ELSE IF At(t, i) \in {DASH, EQ} /\ At(t, i + 1) = GT THEN i + 2 ELSE 0
\* what may follow a rule: nothing or a comment (anything else is left open)
Rest(t, i) == LET j == SkipB(t, i) IN IF At(t, j) \in {-1, PCT} THEN Ok(<<>>, 0, FALSE) ELSE Free
\* weight and comment after a rule that is complete up to position i
After(t, i, mk(_), fr) ==
  LET j == SkipB(t, i)
  IN IF At(t, j) = HASH
     THEN LET k == SkipB(t, j + 1) e == WhileNot(t, k, {SP}) w == Weight(SubSeq(t, k, e - 1))
          IN IF w.s # "ok" THEN w ELSE IF Rest(t, e).s = "free" \/ fr THEN Free ELSE Ok(mk(w.v), 0, FALSE)
     ELSE IF Rest(t, j).s = "free" \/ fr THEN Free ELSE Ok(mk(One), 0, FALSE)
Rule(t, kind) ==
  LET h == Token(t, 1)
  IN IF t = <<>> \/ t[1] \in White THEN Free
     ELSE IF h.s # "ok" THEN h
     ELSE LET a == Arrow(t, SkipB(t, h.i))
          IN IF a = 0 THEN Fail
             ELSE LET c == IF kind = "cfg" THEN Vec(t, SkipB(t, a), "letter", LBR, RBR) ELSE Vec(t, SkipB(t, a), "comp", LBR, RBR)
                  IN IF c.s # "ok" THEN c
                     ELSE IF kind = "cfg"
                          THEN After(t, c.i, LAMBDA w : [head |-> h.v, tail |-> <<>>, comp |-> c.v, w |-> w], h.fr \/ c.fr)
                          ELSE LET s == Vec(t, SkipB(t, c.i), "tok", LPAR, RPAR)
                               IN IF s.s # "ok" THEN s
                                  ELSE After(t, s.i, LAMBDA w : [head |-> h.v, tail |-> s.v, comp |-> c.v, w |-> w], h.fr \/ c.fr \/ s.fr)
\* declarations of initial nonterminals
IsInitial(t) == Starts(t, 1, cINITIAL)
Initials(t) == LET v == Vec(t, SkipB(t, 9), "tok", LBR, RBR)
               IN IF v.s # "ok" THEN v ELSE IF v.fr \/ Rest(t, v.i).s = "free" THEN Free ELSE v

--------------------------------------------------------------------------
\* lines
RECURSIVE Split(_, _, _)
Split(t, i, acc) == LET e == WhileNot(t, i, {LF})
                    IN IF e > Len(t) THEN (IF i > Len(t) THEN acc ELSE Append(acc, SubSeq(t, i, e - 1)))
                       ELSE Split(t, e + 1, Append(acc, SubSeq(t, i, e - 1)))
Lines(t) == Split(t, 1, <<>>)
RECURSIVE LastBlack(_, _)
LastBlack(t, i) == IF i > 0 /\ t[i] \in White THEN LastBlack(t, i - 1) ELSE i
Trim(t) == LET i == While(t, 1, White) IN SubSeq(t, i, LastBlack(t, Len(t)))

=============================================================================
