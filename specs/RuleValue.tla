-------------------------------- MODULE RuleValue --------------------------------
(***************************************************************************)
(* Rules as values.  A rule is [head, tail, comp, w]; what it says is its  *)
(* head, tail and composition, the weight is an annotation: dictionaries   *)
(* and sets keyed by rules hold one entry for all rules that say the same. *)
(* A CFG rule has no tail and a composition of <<"N", x>> and <<"T", x>>;  *)
(* a PMCFG composition is a sequence of components of <<"V", i, j>> and    *)
(* <<"T", x>>.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Says(r) == <<r.head, r.tail, r.comp>>
Same(r, s) == Says(r) = Says(s)
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE First(_)
First(s) == IF s = <<>> THEN 0 ELSE IF Head(s) # 0 THEN Head(s) ELSE First(Tail(s))
RECURSIVE LexInts(_, _)
LexInts(u, v) == IF u = <<>> \/ v = <<>> THEN Cmp(Len(u), Len(v))
                 ELSE IF Head(u) # Head(v) THEN Cmp(Head(u), Head(v)) ELSE LexInts(Tail(u), Tail(v))
\* nonterminals and variables come before terminals
Kind(x) == IF x[1] = "T" THEN 1 ELSE 0
CmpLetter(x, y) == IF Kind(x) # Kind(y) THEN Cmp(Kind(x), Kind(y)) ELSE LexInts(Tail(x), Tail(y))
RECURSIVE LexLetters(_, _)
LexLetters(u, v) == IF u = <<>> \/ v = <<>> THEN Cmp(Len(u), Len(v))
                    ELSE LET k == CmpLetter(Head(u), Head(v)) IN IF k # 0 THEN k ELSE LexLetters(Tail(u), Tail(v))
RECURSIVE LexComp(_, _)
LexComp(u, v) == IF u = <<>> \/ v = <<>> THEN Cmp(Len(u), Len(v))
                 ELSE LET k == LexLetters(Head(u), Head(v)) IN IF k # 0 THEN k ELSE LexComp(Tail(u), Tail(v))
\* the order of rules by what they say (and then by weight)
CmpSays(p, r, s) == First(<<Cmp(r.head, s.head), LexInts(r.tail, s.tail), IF p THEN LexComp(r.comp, s.comp) ELSE LexLetters(r.comp, s.comp)>>)
CmpRule(p, r, s) == First(<<CmpSays(p, r, s), Cmp(r.w, s.w)>>)

\* a dictionary keyed by rules: a function from what rules say to values
Get(d, r) == IF Says(r) \in DOMAIN d THEN <<d[Says(r)]>> ELSE <<>>
Put(d, r, v) == [k \in DOMAIN d \cup {Says(r)} |-> IF k = Says(r) THEN v ELSE d[k]]
Del(d, r) == [k \in DOMAIN d \ {Says(r)} |-> d[k]]

\* nonterminals renamed by the sequence of pairs f (others stay)
Rename(f, x) == IF \E k \in 1..Len(f) : f[k][1] = x THEN f[CHOOSE k \in 1..Len(f) : f[k][1] = x][2] ELSE x
MapRule(f, r) == [r EXCEPT !.head = Rename(f, @), !.tail = [k \in 1..Len(@) |-> Rename(f, @[k])]]
=============================================================================
