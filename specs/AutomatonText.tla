----------------------------- MODULE AutomatonText -----------------------------
(***************************************************************************)
(* The texts of tree stack automata ("tsa") and finite state automata      *)
(* ("fsa"), line by line: comments and blank lines; initial: q;            *)
(* final: [p, q]; Transition [a, b] (instruction) # weight.                *)
(* Symbols are texts ("str") or numbers ("int"); so are weights: "log"     *)
(* stands for decimals, "int" for natural numbers.                         *)
(***************************************************************************)
EXTENDS GrammarTokens
cTRANS == <<84, 114, 97, 110, 115, 105, 116, 105, 111, 110>>  \* Transition
cFINAL == <<102, 105, 110, 97, 108, 58>>                      \* final:
cUP == <<85, 112>>   cPUSH == <<80, 117, 115, 104>>   cDOWN == <<68, 111, 119, 110>>
Plus == 43

\* a natural number
Natural(w) == IF w # <<>> /\ \A k \in 1..Len(w) : w[k] \in Digit THEN (IF Len(w) <= 9 THEN Ok(Num(w, 0), 0, FALSE) ELSE Free)
              ELSE IF w # <<>> /\ w[1] = Plus THEN Free ELSE Fail
\* a symbol, as it is shown afterwards (numbers without leading zeros)
RECURSIVE Plain(_)
Plain(w) == IF Len(w) > 1 /\ w[1] = 48 THEN Plain(Tail(w)) ELSE w
Symbol(w, sym) == IF sym = "str" THEN Ok(w, 0, FALSE) ELSE LET n == Natural(w) IN IF n.s = "ok" THEN Ok(Plain(w), 0, FALSE) ELSE n

--------------------------------------------------------------------------
\* instructions: words between blanks
RECURSIVE Words(_, _)
Words(t, i) == LET j == While(t, i, White) e == WhileNot(t, j, White) IN IF j > Len(t) THEN <<>> ELSE <<SubSeq(t, j, e - 1)>> \o Words(t, e)
HasFar(t) == \E k \in 1..Len(t) : t[k] \in FarWhite
Worst(ss) == IF \E k \in 1..Len(ss) : ss[k].s = "fail" THEN Fail ELSE IF \E k \in 1..Len(ss) : ss[k].s = "free" THEN Free ELSE Ok(<<>>, 0, FALSE)
Made(kind, ws, nums, syms, sym) ==   \* ws[k] is a number for k in nums, a symbol for k in syms
  LET r == [k \in 1..Len(ws) |-> IF k \in nums THEN Natural(ws[k]) ELSE IF k \in syms THEN Symbol(ws[k], sym) ELSE Ok(<<>>, 0, FALSE)]
      all == Worst(r)
  IN IF all.s # "ok" THEN all ELSE Ok(<<kind>> \o [k \in 1..Cardinality(nums \cup syms) |-> r[CHOOSE x \in nums \cup syms : Cardinality({y \in nums \cup syms : y <= x}) = k].v], 0, FALSE)
Instr(t, kind, sym) ==
  LET ws == Words(t, 1) n == Len(ws) IN
  IF HasFar(t) THEN Free
  ELSE IF kind = "fsa"
       THEN IF n = 3 /\ ws[2] \in {<<DASH, GT>>, <<ARROW>>} THEN Made("F", ws, {}, {1, 3}, sym) ELSE Fail
  ELSE IF n = 5 /\ ws[1] = cUP THEN Made("Up", ws, {2}, {3, 4, 5}, sym)
  ELSE IF n = 4 /\ ws[1] = cPUSH THEN Made("Push", ws, {2}, {3, 4}, sym)
  ELSE IF n = 4 /\ ws[1] = cDOWN THEN Made("Down", ws, {}, {2, 3, 4}, sym)
  ELSE Fail

--------------------------------------------------------------------------
\* transitions
AWeight(w, wt) == IF wt = "log" THEN Weight(w)
                  ELSE IF w = <<>> \/ \E k \in 1..Len(w) : w[k] \in White \cup {PCT} THEN Free
                  ELSE LET n == Natural(w) IN IF n.s = "ok" /\ n.v <= 2000 THEN Ok(n.v * 1000000, 0, FALSE) ELSE IF n.s = "ok" THEN Free ELSE n
Comment(t, i) == At(t, SkipB(t, i)) \in {-1, PCT}
\* a text after all that is neither a weight nor a comment is an error
Rear(t, i, wt, mk(_), fr) ==
  LET j == SkipB(t, i)
  IN IF At(t, j) = HASH
     THEN LET k == SkipB(t, j + 1) e == WhileNot(t, k, {SP}) w == AWeight(SubSeq(t, k, e - 1), wt)
          IN IF w.s # "ok" THEN w ELSE IF ~Comment(t, e) THEN Fail ELSE IF fr THEN Free ELSE Ok(mk(w.v), 0, FALSE)
     ELSE IF ~Comment(t, j) THEN Fail ELSE IF fr THEN Free ELSE Ok(mk(One), 0, FALSE)
TransLine(t, kind, sym, wt) ==
  IF ~Starts(t, 1, cTRANS) THEN Fail
  ELSE LET w == Vec(t, SkipB(t, 11), "tok", LBR, RBR)
       IN IF w.s # "ok" THEN w
          ELSE LET i == SkipB(t, w.i) e == WhileNot(t, i, {RPAR})
               IN IF At(t, i) # LPAR \/ e > Len(t) THEN Fail
                  ELSE LET x == Instr(SubSeq(t, i + 1, e - 1), kind, sym)
                       IN IF x.s # "ok" THEN x ELSE Rear(t, e + 1, wt, LAMBDA v : [word |-> w.v, ins |-> x.v, w |-> v], w.fr)
\* a declaration of the initial symbol: what follows the symbol is left open
InitLine(t, sym) == LET r == Token(t, SkipB(t, 9))
                    IN IF r.s # "ok" THEN r
                       ELSE LET q == Symbol(r.v, sym) IN IF q.s # "ok" THEN q ELSE IF r.fr \/ ~Comment(t, r.i) THEN Free ELSE q
IsFinal(t) == Starts(t, 1, cFINAL)
\* in a list a symbol that cannot be read ends it
FinalLine(t, sym) == LET r == Vec(t, SkipB(t, 7), "tok", LBR, RBR)
                     IN IF r.s # "ok" THEN r
                        ELSE LET q == [k \in 1..Len(r.v) |-> Symbol(r.v[k], sym)] all == Worst(q)
                             IN IF all.s # "ok" THEN all ELSE IF r.fr \/ ~Comment(t, r.i) THEN Free ELSE Ok([k \in 1..Len(q) |-> q[k].v], 0, FALSE)

--------------------------------------------------------------------------
\* the reader of a whole text, line by line
VARIABLES lines, form, initial, finals, trs, status
rvars == <<lines, form, initial, finals, trs, status>>
RInit(t, f) == lines = Lines(t) /\ form = f /\ initial = <<>> /\ finals = <<>> /\ trs = <<>> /\ status = "ok"
Worse(a, b) == IF a = "fail" \/ b = "fail" THEN "fail" ELSE IF a = "free" \/ b = "free" THEN "free" ELSE "ok"
Open(t) == t # <<>> /\ (t[1] \in FarWhite \/ t[Len(t)] \in FarWhite)
What(t, f) == IF t = <<>> THEN "nothing" ELSE IF Open(t) THEN "open" ELSE IF t[1] = PCT THEN "nothing"
              ELSE IF IsInitial(t) THEN "initial" ELSE IF f.kind = "fsa" /\ IsFinal(t) THEN "final" ELSE "trans"
\* reading is [ini, fin, trs, st]; ini and fin are sequences of what the declarations said; a second declaration is left open
Blank0 == [ini |-> <<>>, fin |-> <<>>, trs |-> <<>>, st |-> "ok"]
OneLine(s, t, f) ==
  CASE What(t, f) = "nothing" -> s
    [] What(t, f) = "open" -> [s EXCEPT !.st = Worse(@, "free")]
    [] What(t, f) = "initial" -> LET r == InitLine(t, f.sym) IN IF r.s = "ok" THEN [s EXCEPT !.ini = Append(@, r.v), !.st = IF s.ini = <<>> THEN @ ELSE Worse(@, "free")] ELSE [s EXCEPT !.st = Worse(@, r.s)]
    [] What(t, f) = "final" -> LET r == FinalLine(t, f.sym) IN IF r.s = "ok" THEN [s EXCEPT !.fin = Append(@, r.v), !.st = IF s.fin = <<>> THEN @ ELSE Worse(@, "free")] ELSE [s EXCEPT !.st = Worse(@, r.s)]
    [] What(t, f) = "trans" -> LET r == TransLine(t, f.kind, f.sym, f.wt) IN IF r.s = "ok" THEN [s EXCEPT !.trs = Append(@, r.v)] ELSE [s EXCEPT !.st = Worse(@, r.s)]
ReadLine == /\ lines # <<>>
            /\ LET s == OneLine([ini |-> initial, fin |-> finals, trs |-> trs, st |-> status], Trim(Head(lines)), form)
               IN initial' = s.ini /\ finals' = s.fin /\ trs' = s.trs /\ status' = s.st
            /\ lines' = Tail(lines) /\ UNCHANGED form
\* an initial symbol is required, and a final state
Verdict(s, f) == IF s.st = "ok" /\ (s.ini = <<>> \/ (f.kind = "fsa" /\ (s.fin = <<>> \/ s.fin[1] = <<>>))) THEN "fail" ELSE s.st
RECURSIVE ReadFrom(_, _, _)
ReadFrom(s, ls, f) == IF ls = <<>> THEN [s EXCEPT !.st = Verdict(s, f)] ELSE ReadFrom(OneLine(s, Trim(Head(ls)), f), Tail(ls), f)
Read(t, f) == ReadFrom(Blank0, Lines(t), f)

--------------------------------------------------------------------------
\* printing; a symbol at the start stands without quotes, final states and letters in quotes
Q(w) == <<QUOTE>> \o w \o <<QUOTE>>
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
CS == <<COMMA, SP>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Frac(_, _)
Frac(n, d) == IF d = 0 THEN <<>> ELSE Frac(n \div 10, d - 1) \o <<48 + (n % 10)>>
WText(m) == Digits(m \div 1000000) \o (IF m % 1000000 = 0 THEN <<>> ELSE <<DOT>> \o Frac(m % 1000000, 6))
PIns(i) == <<LPAR>> \o (CASE i[1] = "F" -> Join(<<i[2], <<ARROW>>, i[3]>>, <<SP>>)
                          [] i[1] = "Up" -> Join(<<cUP, Digits(i[2]), i[3], i[4], i[5]>>, <<SP>>)
                          [] i[1] = "Push" -> Join(<<cPUSH, Digits(i[2]), i[3], i[4]>>, <<SP>>)
                          [] i[1] = "Down" -> Join(<<cDOWN, i[2], i[3], i[4]>>, <<SP>>)) \o <<RPAR>>
PTrans(t) == cTRANS \o <<SP, LBR>> \o Join([k \in 1..Len(t.word) |-> Q(t.word[k])], CS) \o <<RBR, SP>> \o PIns(t.ins) \o <<SP, SP, HASH, SP>> \o WText(t.w)
PAut(ini, fin, ts, kind) == cINITIAL \o <<SP>> \o ini \o <<LF>> \o (IF kind = "fsa" THEN cFINAL \o <<SP, LBR>> \o Join([k \in 1..Len(fin) |-> Q(fin[k])], CS) \o <<RBR, LF>> ELSE <<>>)
                            \o <<LF>> \o Join([m \in 1..Len(ts) |-> PTrans(ts[m]) \o <<LF>>], <<>>)
\* what can be printed so that it reads back: no quotes, no control characters, an initial symbol that needs no quotes
Tame(w) == w # <<>> /\ \A k \in 1..Len(w) : w[k] \in (32..126) \ {QUOTE, BSL}
Printable(ini, fin, ts) == /\ Tame(ini) /\ LET r == Token(ini, 1) IN (IF r.s = "ok" THEN r.i = Len(ini) + 1 /\ ~r.fr ELSE FALSE)
                           /\ \A k \in 1..Len(fin) : Tame(fin[k])
                           /\ \A k \in 1..Len(ts) : \A m \in 1..Len(ts[k].word) : Tame(ts[k].word[m])
=============================================================================
