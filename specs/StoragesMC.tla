------------------------------- MODULE StoragesMC -------------------------------
(* A tree stack and a pushdown under every sequence of instructions. *)
EXTENDS Storages
CONSTANTS Vals, Nums, MaxSteps
VARIABLES s, p, steps, prev
vars == <<s, p, steps, prev>>
Init == s = NewTree(0) /\ p = <<0>> /\ steps = 0 /\ prev = <<s, <<>>>>
TreeInstrs == {<<"Up", n, x, y, z>> : n \in Nums, x \in Vals, y \in Vals, z \in Vals}
   \cup {<<"Push", n, x, z>> : n \in Nums, x \in Vals, z \in Vals}
   \cup {<<"Down", x, y, z>> : x \in Vals, y \in Vals, z \in Vals}
Words == UNION {[1..k -> Vals] : k \in 0..2}
TreeStep == \E i \in TreeInstrs : LET q == ApplyTree(i, s) IN q # <<>> /\ s' = q[1] /\ prev' = <<s, i>> /\ UNCHANGED p
PushStep == \E o \in Words, n \in Words : LET q == Replace(p, o, n) IN q # <<>> /\ Len(q[1]) < 4 /\ p' = q[1] /\ UNCHANGED <<s, prev>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (TreeStep \/ (s = NewTree(0) /\ PushStep))
Spec == Init /\ [][Next]_vars
Closed == /\ s.at \in DOMAIN s.t
          /\ \A a \in DOMAIN s.t : a = <<>> \/ Below(a) \in DOMAIN s.t
\* an instruction changes the value at the new pointer only, and moves the pointer by one step
Local == LET o == prev[1] i == prev[2] IN i # <<>> =>
   /\ \A a \in DOMAIN s.t \ {s.at} : a \in DOMAIN o.t /\ s.t[a] = o.t[a]
   /\ DOMAIN o.t \subseteq DOMAIN s.t
   /\ (i[1] = "Down" => s.at = Below(o.at) /\ DOMAIN s.t = DOMAIN o.t)
   /\ (i[1] # "Down" => Below(s.at) = o.at)
   /\ Cur(s) = i[Len(i)]
\* going down with the old value and up again gives the storage before
BackAndForth == s.at # <<>> =>
   LET v == Cur(s) u == s.t[Below(s.at)] n == s.at[Len(s.at)]
       d == ApplyTree(<<"Down", v, u, u>>, s)
   IN d # <<>> /\ ApplyTree(<<"Up", n, u, v, v>>, d[1]) = <<s>>
PushNextIsFirst == LET q == PushNext(s, 7) IN Cur(q) = 7 /\ \A n \in 0..(q.at[Len(q.at)] - 1) : UpTo(s, n) # <<>>
UpsAll == Len(Ups(s)) = Cardinality(ChildNums(s)) /\ \A k \in 1..Len(Ups(s)) : Down(Ups(s)[k]) = <<s>>
ReplaceInverse == \A o \in Words, n \in Words : LET q == Replace(p, o, n) IN q # <<>> => Replace(q[1], Rev(n), Rev(o)) = <<p>>
=============================================================================
