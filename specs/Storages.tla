-------------------------------- MODULE Storages --------------------------------
(***************************************************************************)
(* The storages of the automata.                                           *)
(*                                                                         *)
(* A tree stack is [t, at]: a function t from a prefix-closed set of       *)
(* addresses (sequences of child numbers, any numbers) to values, and the  *)
(* address at of the pointer.  A pushdown is a sequence, its top last.     *)
(* Every operation gives <<new storage>>, or <<>> if it is not possible.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---- tree stacks
NewTree(a) == [t |-> (<<>> :> a), at |-> <<>>]
Cur(s) == s.t[s.at]
Below(b) == SubSeq(b, 1, Len(b) - 1)
IsPrefix_(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
ChildNums(s) == {b[Len(b)] : b \in {x \in DOMAIN s.t : x # <<>> /\ Below(x) = s.at}}
SetVal(s, a) == [s EXCEPT !.t = [@ EXCEPT ![s.at] = a]]
PushAt(s, n, a) == IF n \in ChildNums(s) THEN <<>>
                   ELSE <<[t |-> (Append(s.at, n) :> a) @@ s.t, at |-> Append(s.at, n)]>>
Vacant(s) == CHOOSE n \in 0..Cardinality(ChildNums(s)) : n \notin ChildNums(s) /\ \A m \in 0..(n - 1) : m \in ChildNums(s)
PushNext(s, a) == PushAt(s, Vacant(s), a)[1]
UpTo(s, n) == IF n \in ChildNums(s) THEN <<[s EXCEPT !.at = Append(@, n)]>> ELSE <<>>
Down(s) == IF s.at = <<>> THEN <<>> ELSE <<[s EXCEPT !.at = Below(@)]>>
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Ascending(S \ {m})
Ups(s) == LET ns == Ascending(ChildNums(s)) IN [k \in 1..Len(ns) |-> UpTo(s, ns[k])[1]]
AllBelow(s, bound) == \A a \in DOMAIN s.t : IsPrefix_(s.at, a) => s.t[a] <= bound
MapTree(s, k) == [s EXCEPT !.t = [a \in DOMAIN s.t |-> s.t[a] + k]]
\* ---- instructions: <<"Up", n, current, old, new>>, <<"Push", n, current, new>>, <<"Down", current, old, new>>
ApplyTree(i, s) ==
  CASE i[1] = "Up" -> IF Cur(s) # i[3] THEN <<>> ELSE LET u == UpTo(s, i[2]) IN IF u = <<>> THEN <<>> ELSE IF Cur(u[1]) # i[4] THEN <<>> ELSE <<SetVal(u[1], i[5])>>
    [] i[1] = "Push" -> IF Cur(s) # i[3] THEN <<>> ELSE PushAt(s, i[2], i[4])
    [] i[1] = "Down" -> IF Cur(s) # i[2] THEN <<>> ELSE LET d == Down(s) IN IF d = <<>> THEN <<>> ELSE IF Cur(d[1]) # i[3] THEN <<>> ELSE <<SetVal(d[1], i[4])>>

\* ---- pushdowns
Top(p) == p[Len(p)]
Pop(p) == SubSeq(p, 1, Len(p) - 1)
SetTop(p, a) == Append(Pop(p), a)
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
EndsWith(p, q) == Len(q) <= Len(p) /\ SubSeq(p, Len(p) - Len(q) + 1, Len(p)) = q
\* Replace: old is given top first, new bottom first
Replace(p, old, new) == IF EndsWith(p, Rev(old)) THEN <<SubSeq(p, 1, Len(p) - Len(old)) \o new>> ELSE <<>>

\* ---- transitions: [word, weight, instr] on configurations [word, weight, storage]
ApplyTransition(tr, cf, succ(_)) ==
  IF Len(tr.word) <= Len(cf.word) /\ SubSeq(cf.word, 1, Len(tr.word)) = tr.word
  THEN LET q == succ(cf.storage) IN [k \in 1..Len(q) |-> [word |-> SubSeq(cf.word, Len(tr.word) + 1, Len(cf.word)), weight |-> cf.weight * tr.weight, storage |-> q[k]]]
  ELSE <<>>

\* ---- printed forms
RECURSIVE Bars(_), LexLess(_, _)
Bars(n) == IF n = 0 THEN "" ELSE "| " \o Bars(n - 1)
LexLess(u, v) == IF u = <<>> THEN v # <<>> ELSE IF v = <<>> THEN FALSE ELSE IF Head(u) # Head(v) THEN Head(u) < Head(v) ELSE LexLess(Tail(u), Tail(v))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S \ {m} : LexLess(m, x) IN <<m>> \o Sorted(S \ {m})
NodeText(s, a) == LET n == Len(a) mark == IF a = s.at THEN "*" ELSE " " IN
  IF n = 0 THEN " \n" \o mark \o ToString(s.t[a]) \o "\n"
  ELSE " " \o Bars(n - 1) \o "|\n" \o mark \o Bars(n - 1) \o "+-" \o ToString(a[n]) \o ": " \o ToString(s.t[a]) \o "\n"
RECURSIVE Join(_, _)
Join(ts, sep) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Join(Tail(ts), sep)
TreeText(s) == LET as == Sorted(DOMAIN s.t) IN Join([k \in 1..Len(as) |-> NodeText(s, as[k])], "")
Ints(q) == [k \in 1..Len(q) |-> ToString(q[k])]
Quoted(q) == [k \in 1..Len(q) |-> "\"" \o ToString(q[k]) \o "\""]
PushText(p) == "stack: [" \o Join(Ints(p), " ") \o "], empty:" \o ToString(p[1])
ReplaceText(old, new) == "(Replace " \o Join(Quoted(old), ", ") \o " // " \o Join(Quoted(new), ", ") \o ")"
TreeInstrText(i) == "(" \o i[1] \o " " \o Join(Ints(Tail(i)), " ") \o ")"
=============================================================================
