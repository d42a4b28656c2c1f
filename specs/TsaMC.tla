-------------------------------- MODULE TsaMC --------------------------------
(***************************************************************************)
(* The tree stack automaton of an ordered PMCFG: its storage is, at any    *)
(* time, a derivation being traversed.                                     *)
(***************************************************************************)
EXTENDS AutomataPool
CONSTANTS NRules, NWord, Height
VARIABLES g, word, x
vars == <<g, word, x>>
Aut == OfPmcfg(g)
Init == /\ g \in Pmcfgs(NRules)
        /\ word \in WordsUpTo({1, 2}, NWord)
        /\ x = Start(OfPmcfg(g))
Next == /\ x' \in Steps(Aut, word, x)
        /\ UNCHANGED <<g, word>>
Spec == Init /\ [][Next]_vars
\* every node below the root carries a rule that fits its parent's, a component of it and a place there
Node(a) == x.st.t[a]
WellFormed ==
  \A a \in DOMAIN x.st.t :
    IF a = <<>> THEN Node(a) \in {<<"I">>, <<"@">>}
    ELSE /\ Below(a) \in DOMAIN x.st.t
         /\ LET n == Node(a) r == g.rules[n[2]] IN
            /\ n[3] < Len(r.comp) /\ n[4] <= NVars(g, n[2], n[3])
            /\ IF Len(a) = 1 THEN a = <<0>> /\ r.head \in Rng(g.init)
               ELSE LET p == g.rules[Node(Below(a))[2]] IN a[Len(a)] < Len(p.tail) /\ p.tail[a[Len(a)] + 1] = r.head
\* the weight is that of the rules in the storage
Rules == LET A == {a \in DOMAIN x.st.t : a # <<>>} RECURSIVE W(_) W(S) == IF S = {} THEN One ELSE LET a == CHOOSE a \in S : TRUE IN Mul(g.rules[Node(a)[2]].w, W(S \ {a})) IN W(A)
Same(u, v) == u[1] * Pow2(v[2]) = v[1] * Pow2(u[2])
WeightRight == Same(x.w, Rules)
Complete ==
  x.r = <<>> =>
    LET M == Runs(Aut, word, 0)
        D == PmcfgDerivations(g, word, Height)
    IN /\ {TreeOf(y.st) : y \in M} = {AsMap(d, <<>>) : d \in D}
       /\ Cardinality(M) = Cardinality(D)
       /\ \A y \in M : y.st.t[<<>>] = <<"@">>
=============================================================================
