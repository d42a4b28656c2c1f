-------------------------------- MODULE PdaMC --------------------------------
(***************************************************************************)
(* The pushdown automaton of a CFG, step by step next to the leftmost      *)
(* derivation it simulates: letters read + stack = sentential form.        *)
(***************************************************************************)
EXTENDS AutomataPool
CONSTANTS NRules, NWord, Height
VARIABLES g, word, x
vars == <<g, word, x>>
Aut == OfCfg(g)
Init == /\ g \in Cfgs(NRules)
        /\ word \in WordsUpTo({1, 2}, NWord)
        /\ x = Start(OfCfg(g))
Next == /\ x' \in Steps(Aut, word, x)
        /\ UNCHANGED <<g, word>>
Spec == Init /\ [][Next]_vars
\* the rules applied so far, by number; the nonterminal the derivation started with
Rules == SelectSeq(x.r, LAMBDA i : i <= Len(g.rules))
Starts == SelectSeq(x.r, LAMBDA i : i > Len(Aut.tr) - Len(g.init))
RECURSIVE Leftmost(_, _)
Leftmost(sf, rs) ==    \* <<sentential form>>, or <<>> if a rule does not fit
  IF rs = <<>> THEN <<sf>>
  ELSE LET P == {k \in 1..Len(sf) : sf[k][1] = "N"}
       IN IF P = {} THEN <<>>
          ELSE LET k == CHOOSE k \in P : \A m \in P : k <= m
               IN IF g.rules[Head(rs)].head # sf[k][2] THEN <<>>
                  ELSE Leftmost(SubSeq(sf, 1, k - 1) \o g.rules[Head(rs)].comp \o SubSeq(sf, k + 1, Len(sf)), Tail(rs))
Read == [k \in 1..x.p |-> T_(word[k])]
Stack == Rev(Tail(x.st))
Simulates == IF Starts = <<>> THEN x.r = <<>> /\ Stack = <<<<"I">>>>
             ELSE /\ Len(Starts) = 1
                  /\ LET sf == Leftmost(<<N_(g.init[Starts[1] - (Len(Aut.tr) - Len(g.init))])>>, Rules)
                     IN sf = <<Read \o Stack>>
                  /\ x.w = RulesWeight(g, Rules)
BottomKept == Head(x.st) = <<"@">> /\ \A k \in 2..Len(x.st) : x.st[k] # <<"@">>
\* the accepting runs are the derivations, one each, with their weights
Complete ==
  x.r = <<>> =>
    LET A == Aut
        M == Runs(A, word, 0)
        ruleRun(y) == SelectSeq(y.r, LAMBDA i : i <= Len(g.rules))
        startOf(y) == g.init[SelectSeq(y.r, LAMBDA i : i > Len(A.tr) - Len(g.init))[1] - (Len(A.tr) - Len(g.init))]
        D == CfgDerivations(g, word, Height)
    IN /\ {<<startOf(y), ruleRun(y), y.w>> : y \in M} = {<<d[1], Preorder(d[2]), Weight(g, d[2])>> : d \in D}
       /\ Cardinality(M) = Cardinality(D)
=============================================================================
