----------------------------- MODULE CommandLineMC -----------------------------
(* A session: sentences come in one after the other; for each, the best      *)
(* derivations not yet printed are printed, at most K of them; a block       *)
(* without a parse if there is none.                                         *)
EXTENDS CsParsingPool
CONSTANTS NRules, NWord, K, NLines
VARIABLES g, word, left, out, shown, first, n
vars == <<g, word, left, out, shown, first, n>>
\* out: what was printed for the current sentence; shown: for all sentences, pairs <<sentence, what was printed>>
Ders(f, w) == {Tree(f, d) : d \in Good(f, Top(f, w, Table(f, w, 1000000)))}
Init == /\ g \in {h \in Grammars(PoolA, NRules) : Acyclic(h)} /\ word \in Words_(NWord)
        /\ left = Ders(g, word) /\ out = <<>> /\ shown = {} /\ first = TRUE /\ n = 1
PrintBest == /\ first \/ out # <<>>
         /\ Len(out) < K /\ left # {}
         /\ \E t \in left : (\A u \in left : TreeExp(t) <= TreeExp(u)) /\ out' = Append(out, t) /\ left' = left \ {t}
         /\ first' = FALSE /\ UNCHANGED <<g, word, shown, n>>
None == /\ first /\ left = {} /\ out' = <<{}>> /\ first' = FALSE /\ UNCHANGED <<g, word, left, shown, n>>
Line == /\ ~first /\ (left = {} \/ Len(out) = K) /\ n < NLines
        /\ shown' = shown \cup {<<word, out>>}
        /\ \E w \in Words_(NWord) : word' = w /\ left' = Ders(g, w)
        /\ out' = <<>> /\ first' = TRUE /\ n' = n + 1 /\ UNCHANGED g
Next == PrintBest \/ None \/ Line
Spec == Init /\ [][Next]_vars
Min(a, b) == IF a < b THEN a ELSE b
\* every line gets an answer: as many of the best derivations as there are and are wanted, or exactly one block without
Answered == \A x \in shown : IF Ders(g, x[1]) = {} THEN x[2] = <<{}>>
                             ELSE /\ Len(x[2]) = Min(K, Cardinality(Ders(g, x[1])))
                                  /\ \A k \in 1..Len(x[2]) : x[2][k] \in Ders(g, x[1])
\* best first, each once, nothing better is held back
InOrder == \A x \in shown : x[2] # <<{}>> =>
   /\ \A j, k \in 1..Len(x[2]) : j < k => x[2][j] # x[2][k] /\ TreeExp(x[2][j]) <= TreeExp(x[2][k])
   /\ \A t \in Ders(g, x[1]) : (\A k \in 1..Len(x[2]) : x[2][k] # t) => \A k \in 1..Len(x[2]) : TreeExp(x[2][k]) <= TreeExp(t)
\* what is accepted of a real session is exactly what this machine can print
Judged == \A x \in shown : x[2] # <<{}>> =>
   LET f == Masked(g, x[1]) D == Top(f, x[1], Table(f, x[1], 1000000)) IN
   IF Len(x[2]) < K THEN IsEnumeration(f, D, -1, x[2]) ELSE IsFirst(f, D, x[2])
=============================================================================
