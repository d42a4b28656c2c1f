------------------------------ MODULE RuleValueMC ------------------------------
(* A dictionary keyed by rules; the order of rules. *)
EXTENDS RuleValue
CONSTANTS Nts, Weights, Vars, MaxTail, MaxComps, MaxLen
Letters == {<<"V", 0, j>> : j \in Vars} \cup {<<"T", 1>>}
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
Comps == Upto(Upto(Letters, MaxLen), MaxComps)
Rules == {[head |-> h, tail |-> t, comp |-> x, w |-> w] : h \in Nts, t \in Upto(Nts, MaxTail), x \in Comps, w \in Weights}
VARIABLES dict, log
vars == <<dict, log>>
Init == dict = <<>> /\ log = <<>>
Insert == \E r \in Rules, v \in {1, 2} : dict' = Put(dict, r, v) /\ log' = Append(log, <<r, <<v>>>>)
Remove == \E r \in Rules : dict' = Del(dict, r) /\ log' = Append(log, <<r, <<>>>>)
Next == Len(log) < 2 /\ (Insert \/ Remove)
Spec == Init /\ [][Next]_vars
Logged == {log[k][1] : k \in 1..Len(log)}
\* the dictionary holds what was put last under a rule that says the same
LastOf(r) == LET ks == {k \in 1..Len(log) : Same(log[k][1], r)} IN IF ks = {} THEN <<>> ELSE log[CHOOSE k \in ks : \A m \in ks : m <= k][2]
Holds == \A r \in Logged : Get(dict, r) = LastOf(r)
Lookalike == \A r \in Logged : \A w \in Weights : Get(dict, [r EXCEPT !.w = w]) = Get(dict, r)
\* sanity of the order
Order == \A r, s \in Logged :
   /\ CmpRule(TRUE, r, s) = -CmpRule(TRUE, s, r)
   /\ (CmpRule(TRUE, r, s) = 0) = (r = s)
   /\ (CmpSays(TRUE, r, s) = 0) = Same(r, s)
\* transitive
Trans == \A r, s, t \in {x \in Rules : Len(x.comp) < 2 /\ Len(x.tail) < 2 /\ x.w = 0} :
   CmpRule(TRUE, r, s) <= 0 /\ CmpRule(TRUE, s, t) <= 0 => CmpRule(TRUE, r, t) <= 0
ASSUME Trans
\* renaming: identity, composition with the inverse, what stays
Renaming == \A r \in Logged :
   /\ MapRule(<<>>, r) = r
   /\ MapRule(<<<<1, 2>>, <<2, 1>>>>, MapRule(<<<<1, 2>>, <<2, 1>>>>, r)) = r
   /\ MapRule(<<<<1, 7>>>>, r).comp = r.comp
=============================================================================
