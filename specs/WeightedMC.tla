------------------------------- MODULE WeightedMC -------------------------------
(* A queue of configurations that are added and taken; weights; factors. *)
EXTENDS Weighted
CONSTANTS Syms, MaxWord, Stores, Weights, MaxQueue
Words == UNION {[1..n -> Syms] : n \in 0..MaxWord}
Confs == {[word |-> w, storage |-> s, weight |-> x] : w \in Words, s \in Stores, x \in Weights}
VARIABLES queue, taken, rev, factors
vars == <<queue, taken, rev, factors>>
Init == queue = <<>> /\ taken = <<>> /\ rev \in BOOLEAN /\ factors = <<>>
Add == taken = <<>> /\ Len(queue) < MaxQueue /\ \E x \in Confs : queue' = Append(queue, x) /\ UNCHANGED <<taken, rev, factors>>
Take == \E k \in Greatest(rev, queue) : taken' = Append(taken, queue[k]) /\ queue' = Without(queue, k) /\ UNCHANGED <<rev, factors>>
\* multiplying equal factors (as logarithms)
Mult == queue = <<>> /\ taken = <<>> /\ Len(factors) < 5 /\ \E x \in -3..3 : (IF factors = <<>> THEN TRUE ELSE factors[1] = x) /\ factors' = Append(factors, x) /\ UNCHANGED <<queue, taken, rev>>
Next == Add \/ Take \/ Mult
Spec == Init /\ [][Next]_vars
\* a total order; equal in the order only if equal in every part; equal configurations have equal parts but the weight
Order == \A i, j \in 1..Len(queue) :
   LET x == queue[i] y == queue[j] IN
   /\ CmpConf(rev, x, y) = -CmpConf(rev, y, x)
   /\ CmpConf(rev, x, y) = 0 <=> x = y
   /\ x = y => SameConf(x, y)
   /\ \A k \in 1..Len(queue) : CmpConf(rev, x, y) >= 0 /\ CmpConf(rev, y, queue[k]) >= 0 => CmpConf(rev, x, queue[k]) >= 0
   /\ SameConf(x, y) => CmpConf(~rev, x, y) = -CmpConf(rev, x, y)
TakenInOrder == \A k \in 1..Len(taken) - 1 : CmpConf(rev, taken[k], taken[k + 1]) >= 0
SortIsTake == taken # <<>> /\ queue = <<>> => Sorted(rev, taken) = [k \in 1..Len(taken) |-> taken[Len(taken) + 1 - k]]
Division == \A a \in -4..4 : \A b \in -4..4 \ {0} : Rest(a, b) = a - b * Quot(a, b) /\ Abs(Rest(a, b)) < Abs(b) /\ Sgn(Rest(a, b)) \in {0, Sgn(a)}
ASSUME Division
FactorsOk == Factors(factors, SumSeq(factors), Len(factors), 0)
=============================================================================
