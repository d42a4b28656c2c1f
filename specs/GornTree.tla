------------------------------ MODULE GornTree ------------------------------
(* Two Gorn trees, i.e. finite maps from addresses (sequences of numbers) to values; operations act on tree a. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES a, b, out
RECURSIVE LexLess(_, _)
LexLess(x, y) == IF y = <<>> THEN FALSE
                 ELSE IF x = <<>> THEN TRUE
                 ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y)
                 ELSE LexLess(Tail(x), Tail(y))
\* the entries in order of addresses
RECURSIVE KeysOf(_)
KeysOf(s) == IF s = {} THEN <<>>
             ELSE LET m == CHOOSE x \in s : \A y \in s : x = y \/ LexLess(x, y) IN <<m>> \o KeysOf(s \ {m})
Entries(f) == LET k == KeysOf(DOMAIN f) IN [i \in 1..Len(k) |-> <<k[i], f[k[i]]>>]
Opt(f, k) == IF k \in DOMAIN f THEN <<f[k]>> ELSE <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
RECURSIVE Collect(_, _)
Collect(f, s) == IF s = <<>> THEN f ELSE Collect(Put(f, Head(s)[1], Head(s)[2]), Tail(s))
GInit(x, y) == a = Collect(<<>>, x) /\ b = Collect(<<>>, y) /\ out = <<>>
Insert(k, v) == a' = Put(a, k, v) /\ b' = b /\ out' = Opt(a, k)
Remove(k) == a' = Restrict(a, DOMAIN a \ {k}) /\ b' = b /\ out' = Opt(a, k)
Append_ == a' = Over(a, b) /\ b' = <<>> /\ out' = <<>>
\* the addresses from k on go to tree b, whose entries are dropped
SplitOff(k) == /\ a' = Restrict(a, {x \in DOMAIN a : LexLess(x, k)})
               /\ b' = Restrict(a, {x \in DOMAIN a : ~LexLess(x, k)})
               /\ out' = <<>>
Swap == a' = b /\ b' = a /\ out' = <<>>
OrInsert(k, v) == a' = (IF k \in DOMAIN a THEN a ELSE Put(a, k, v)) /\ b' = b /\ out' = <<a'[k]>>
Modify(k, v) == a' = (IF k \in DOMAIN a THEN Put(a, k, v) ELSE a) /\ b' = b /\ out' = Opt(a, k)
AddAll(d) == a' = [x \in DOMAIN a |-> a[x] + d] /\ b' = b /\ out' = <<>>
Clear == a' = <<>> /\ b' = b /\ out' = <<>>
Same == UNCHANGED <<a, b>> /\ out' = <<>>
=============================================================================
