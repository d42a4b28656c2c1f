----------------------------- MODULE UniqueHeap -----------------------------
(***************************************************************************)
(* A unique heap: a max-heap of pairs <<weight, element>> next to the set  *)
(* of elements that are in it.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES heap,    \* the held pairs <<weight, element>> (a set: no pair twice)
          items,   \* the elements that are held
          out      \* what the last action returned

Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
IsTop(p) == p \in heap /\ \A q \in heap : q = p \/ Less(q, p)
Tops == {p \in heap : IsTop(p)}

\* the pairs of a list (of <<weight, element>>) that a construction keeps: the first of every element
FirstOnly(ps) == {ps[i] : i \in {j \in 1..Len(ps) : \A k \in 1..(j - 1) : ps[k][2] # ps[j][2]}}
\* constructions from a vector are free to choose which of the pairs with equal elements they keep
AnyOne(ps) == LET P == {ps[i] : i \in 1..Len(ps)}
                  Twice == {p \in P : \E q \in P : q[2] = p[2] /\ q[1] # p[1]}
                  RECURSIVE Pick(_)
                  Pick(Q) == IF Q = {} THEN {{}}
                             ELSE LET e == (CHOOSE p \in Q : TRUE)[2]
                                      Mine == {p \in Q : p[2] = e}
                                  IN UNION {{h \cup {p} : p \in Mine} : h \in Pick(Q \ Mine)}
              IN {(P \ Twice) \cup h : h \in Pick(Twice)}
HInit(hs) == heap \in hs /\ items = {p[2] : p \in heap} /\ out = <<"new">>

Push(e, w) == IF e \in items
              THEN UNCHANGED <<heap, items>> /\ out' = <<"refused">>
              ELSE heap' = heap \cup {<<w, e>>} /\ items' = items \cup {e} /\ out' = <<"pushed">>
Pop == IF heap = {} THEN UNCHANGED <<heap, items>> /\ out' = <<"nothing">>
       ELSE \E p \in Tops : heap' = heap \ {p} /\ items' = items \ {p[2]} /\ out' = <<"popped", p>>

RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>>
             ELSE LET m == CHOOSE p \in s : \A q \in s : q = p \/ Less(p, q) IN <<m>> \o Sorted(s \ {m})
=============================================================================
