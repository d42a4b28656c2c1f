--------------------------- MODULE DerivationTrace ---------------------------
EXTENDS Derivation, TraceBase
VARIABLES cur      \* the tree that is exported or evaluated
vars == <<cur>>
AsTree(ns) == [x \in {ns[k][1] : k \in 1..Len(ns)} |-> ns[CHOOSE k \in 1..Len(ns) : ns[k][1] = x][2]]
AsMap(ns) == AsTree(ns)
Given == AsTree(Case.tree)
TInit == TraceInit /\ cur = IF Has(Case, "tree") THEN Given ELSE << >>
Items_(v) == [m \in 1..Len(v) |-> [k \in 1..Len(v[m]) |-> <<"T", v[m][k]>>]]
ValueOK(t, at, res) == IF Defined(t, at) THEN res = <<Items_(Val(t, at))>>
                       ELSE IF MustRefuse(t, at) THEN res = <<>>
                       ELSE res \in {<<>>, <<Items_(Val(t, at))>>}

LF == 10  TAB == 9  HASH == 35
RECURSIVE SplitAt(_, _, _, _)
SplitAt(t, sep, i, start) == IF i > Len(t) THEN <<SubSeq(t, start, Len(t))>>
                             ELSE IF t[i] = sep THEN <<SubSeq(t, start, i - 1)>> \o SplitAt(t, sep, i + 1, i + 1)
                             ELSE SplitAt(t, sep, i + 1, start)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Num(_, _)
Num(w, n) == IF w = <<>> THEN n ELSE IF Head(w) \in 48..57 /\ n < 100000000 THEN Num(Tail(w), 10 * n + Head(w) - 48) ELSE -1
BOS(n) == <<35, 66, 79, 83, 32>> \o Digits(n)
EOS(n) == <<35, 69, 79, 83, 32>> \o Digits(n)
NoEdge == <<45, 45>>
NoParse == <<78, 79, 80, 65, 82, 83, 69>>
\* the text of a block of lines; fields are separated by tabulators
LineText(w, tag, par) == w \o <<TAB>> \o tag \o <<TAB>> \o NoEdge \o <<TAB>> \o NoEdge \o <<TAB>> \o Digits(par)
RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o <<LF>> \o Joined(Tail(ls))
Block(ls, n) == BOS(n) \o <<LF>> \o Joined(ls) \o EOS(n)
\* the lines between the first and the last line; word tells which of them are word lines
Parsed(tx, nw) ==
   LET ls == SplitAt(tx, LF, 1, 1)
       f(k) == SplitAt(ls[k], TAB, 1, 1)
   IN [ok |-> /\ Len(ls) >= 2 /\ ls[1] = BOS(Case.sid) /\ ls[Len(ls)] = EOS(Case.sid)
              /\ \A k \in 2..(Len(ls) - 1) : /\ Len(f(k)) = 5 /\ f(k)[3] = NoEdge /\ f(k)[4] = NoEdge /\ Num(f(k)[5], 0) >= 0 /\ f(k)[5] # <<>>
                                             /\ k > nw + 1 => (f(k)[1] # <<>> /\ f(k)[1][1] = HASH),
       lines |-> [k \in 1..(Len(ls) - 2) |-> [form |-> IF k <= nw THEN <<"w", f(k + 1)[1]>> ELSE <<"#", Num(Tail(f(k + 1)[1]), 0)>>,
                                              tag |-> f(k + 1)[2], par |-> Num(f(k + 1)[5], 0)]]]
NegraOK(t, tx) == LET y == Words(Yield(t))
                      p == Parsed(tx, Len(y))
                  IN p.ok /\ IsNegra(t, IF Case.given THEN Case.tokens ELSE y, p.lines)

Step(e) ==
  \/ /\ e.op = "term"
     /\ (AsMap(e.comps) = [x \in DOMAIN cur |-> cur[x].comp] /\ AsMap(e.heads) = [x \in DOMAIN cur |-> cur[x].head]
         /\ Len(e.comps) = Cardinality(DOMAIN cur) /\ Len(e.heads) = Cardinality(DOMAIN cur)) = TRUE
     /\ UNCHANGED cur
  \/ e.op = "eval" /\ ValueOK(cur, e.at, e.res) = TRUE /\ UNCHANGED cur
  \/ /\ e.op = "sep"
     /\ (AsTree(e.orig) = cur /\ IsSeparation(cur, AsTree(e.tree)) /\ Normal(AsTree(e.tree))) = TRUE
     /\ cur' = AsTree(e.tree)
  \/ e.op = "criteria" /\ e.before = Normal(Given) /\ e.after = Normal(cur) /\ UNCHANGED cur
  \* the separated tree has the value of the given one
  \/ e.op = "sepeval" /\ (e.res = <<Items_(Val(Given, <<>>))>>) = TRUE /\ UNCHANGED cur
  \/ /\ e.op = "negra"
     /\ (IF Exportable(cur) THEN (Len(e.text) = 1 /\ NegraOK(cur, e.text[1])) ELSE IF ~Normal(cur) THEN e.text = <<>> ELSE TRUE) = TRUE
     /\ UNCHANGED cur
  \* when the parsed sentence consists of tags, the words are supplied as tokens
  \/ /\ e.op = "noparse"
     /\ (e.text = Block([k \in 1..Len(Case.words) |-> IF Case.given THEN LineText(Case.tokens[k], Case.words[k], 500) ELSE LineText(Case.words[k], NoEdge, 500)]
                        \o <<LineText(<<35, 53, 48, 48>>, NoParse, 0)>>, Case.sid)) = TRUE
     /\ UNCHANGED cur
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
