--------------------------------- MODULE FsaMC ---------------------------------
(* Finite automata: the items of the search are the paths. *)
EXTENDS AutomataPool
CONSTANTS NTrs, NWord, MaxLen
VARIABLES au, word, x
vars == <<au, word, x>>
Init == au \in Fsas(NTrs) /\ word \in WordsUpTo({1, 2}, NWord) /\ x = Start(au)
Next == x' \in Steps(au, word, x) /\ Len(x.r) < MaxLen /\ UNCHANGED <<au, word>>
Spec == Init /\ [][Next]_vars
\* a path: transitions that follow each other, from the initial state on
From(a, r, k) == IF k = 0 THEN a.init ELSE Ins(a.tr[r[k]])[3]
IsPath(a, r) == \A k \in 1..Len(r) : Ins(a.tr[r[k]])[2] = From(a, r, k - 1)
Spelled(a, r) == Cat([k \in 1..Len(r) |-> Word(a.tr[r[k]])])
IsItem == /\ IsPath(au, x.r) /\ x.st = From(au, x.r, Len(x.r))
          /\ Spelled(au, x.r) = SubSeq(word, 1, x.p)
          /\ x.w = Product([k \in 1..Len(x.r) |-> Wt(au.tr[x.r[k]])])
\* all paths of at most n transitions that spell the word and end in a final state
Paths(a, w, n) == {r \in UNION {[1..m -> 1..Len(a.tr)] : m \in 0..n} : IsPath(a, r) /\ Spelled(a, r) = w /\ From(a, r, Len(r)) \in a.fin}
RECURSIVE Within(_, _, _, _)
Within(a, w, F, n) == {y \in F : Accepts(a, w, y)} \cup (IF n = 0 \/ F = {} THEN {} ELSE Within(a, w, UNION {Steps(a, w, y) : y \in F}, n - 1))
Complete == x.r = <<>> => {y.r : y \in Within(au, word, {Start(au)}, MaxLen)} = Paths(au, word, MaxLen)
=============================================================================
