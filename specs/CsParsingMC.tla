------------------------------ MODULE CsParsingMC ------------------------------
(* The enumeration as a machine: the best remaining candidate is taken; if it is consistent, its tree comes out. *)
(* Before, some of the items (state and span) may have been pruned; only so many candidates may be looked at.    *)
EXTENDS CsParsingPool
CONSTANTS NRules, NWord, Cands, Prune, Ties   \* every order of up to `Ties` equally good candidates
VARIABLES h, g, word, all, rest, cand, looked, out, pruned
vars == <<h, g, word, all, rest, cand, looked, out, pruned>>
BIG == 100000
Init == /\ h \in {x \in Grammars(PoolA, NRules) : Acyclic(x)} /\ word \in Words_(NWord) /\ g = Masked(h, word)
        /\ all = Candidates(g, word, BIG) /\ rest = all /\ cand \in {IF z = 99 THEN -1 ELSE z : z \in Cands} /\ looked = 0 /\ out = <<>> /\ pruned = {}
\* the rules in the nodes of a candidate stand for its items
RECURSIVE Items(_)
Items(d) == {<<d.r, d.c, Len(d.kids)>>} \cup UNION {Items(d.kids[k]) : k \in 1..Len(d.kids)}
DoPrune == /\ Prune /\ looked = 0 /\ pruned = {} /\ \E i \in UNION {Items(d) : d \in all} : pruned' = {i} /\ rest' = {d \in rest : i \notin Items(d)}
           /\ UNCHANGED <<h, g, word, all, cand, looked, out>>
Few(B) == IF Cardinality(B) <= Ties THEN B ELSE {CHOOSE d \in B : TRUE}
Take == /\ cand = -1 \/ looked < cand
        /\ \E d \in Few(Best(rest)) : rest' = rest \ {d} /\ out' = IF Consistent(g, d) THEN Append(out, Tree(g, d)) ELSE out
        /\ looked' = looked + 1 /\ UNCHANGED <<h, g, word, all, cand, pruned>>
Next == DoPrune \/ Take
Spec == Init /\ [][Next]_vars
End == rest = {} \/ looked = cand
\* the theorem: the consistent candidates are the derivations, with their weights
TableIs == looked = 0 => all = CandidatesDef(g, word, BIG)
Masking == looked = 0 => {Placed(g, d, <<>>) : d \in Derivations(g, word, BIG)} = {Placed(h, d, <<>>) : d \in Derivations(h, word, BIG)}
Theorem == looked = 0 => LET D == Derivations(g, word, BIG)
                         IN /\ {Tree(g, d) : d \in Good(g, all)} = {Placed(g, d, <<>>) : d \in D}
                            /\ Cardinality(Good(g, all)) = Cardinality(D)
                            /\ \A d \in Good(g, all) : d.e = TreeExp(Tree(g, d))
Judged == End => IF pruned = {} THEN IsEnumeration(g, all, cand, out) ELSE IsPruned(g, all, cand, out)
NoMore == (End /\ pruned = {} /\ out # <<>>) => ~IsEnumeration(g, all, cand, SubSeq(out, 1, Len(out) - 1)) \/ (cand # -1 /\ cand < Cardinality(all))
Derived == \A k \in 1..Len(out) : IsDerivation(h, word, out[k])
FallbackIs == looked = 0 => \A d \in all : IsFallback(g, Fallback(g, d), {d})
Ordered == Sorted([k \in 1..Len(out) |-> TreeExp(out[k])])
=============================================================================
