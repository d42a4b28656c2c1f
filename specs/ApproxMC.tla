------------------------------- MODULE ApproxMC -------------------------------
(***************************************************************************)
(* An automaton and its approximation, step by step: whatever the first    *)
(* does, the second can do with the images.                                *)
(***************************************************************************)
EXTENDS AutomataPool
CONSTANTS NTrs, NRules, NWord, MaxLen
VARIABLES au, s, co, word, x, y
vars == <<au, s, co, word, x, y>>
Sub == {<<"sym", <<<<0, 0>>, <<1, 1>>, <<2, 2>>>>>>, <<"sym", <<<<0, 0>>, <<1, 1>>, <<2, 1>>>>>>, <<"sym", <<<<0, 0>>, <<1, 2>>, <<2, 0>>>>>>}
NtSub == {<<"nt", <<<<1, 1>>, <<2, 1>>>>>>}
Pairs == {<<a, t>> : a \in {Built(p) : p \in Pdas(NTrs)}, t \in Sub} \cup {<<a, <<"tts">>>> : a \in Tsas(NTrs + 1)}
   \cup {<<Built(OfCfg(g)), t>> : g \in Cfgs(NRules), t \in NtSub} \cup {<<OfPmcfg(g), <<"tts">>>> : g \in Pmcfgs(NRules)}
Init == /\ \E p \in Pairs : au = p[1] /\ s = p[2]
        /\ co = Approx(s, au)
        /\ word \in WordsUpTo({1, 2}, NWord)
        /\ x = Start(au) /\ y = Start(co)
ImageOf(i) == CHOOSE j \in 1..Len(co.tr) : SameTr(co.tr[j], ApproxTr(s, au.tr[i]))
Next == /\ Len(x.r) < MaxLen
        /\ x' \in Steps(au, word, x)
        /\ LET j == ImageOf(x'.r[Len(x'.r)]) Y == {z \in Steps(co, word, y) : z.r = Append(y.r, j)}
           IN IF Y = {} THEN y' = [r |-> <<>>, p |-> -1, st |-> <<>>, w |-> Zero] ELSE y' \in Y
        /\ UNCHANGED <<au, s, co, word>>
Spec == Init /\ [][Next]_vars
Follows == y.p = x.p /\ y.st = ApproxStorage(s, x.st) /\ Scaled(y.w) >= Scaled(x.w)
Accepted == Accepts(au, word, x) => Accepts(co, word, y)
\* every transition of the approximation stands for some, and its weight is their sum
Pre(j) == {i \in 1..Len(au.tr) : SameTr(co.tr[j], ApproxTr(s, au.tr[i]))}
RECURSIVE Sum(_)
Sum(P) == IF P = {} THEN Zero ELSE LET i == CHOOSE i \in P : TRUE IN Add(Wt(au.tr[i]), Sum(P \ {i}))
SameW(u, v) == u[1] * Pow2(v[2]) = v[1] * Pow2(u[2])
Weights == x.r = <<>> => /\ UNION {Pre(j) : j \in 1..Len(co.tr)} = 1..Len(au.tr)
                         /\ \A j \in 1..Len(co.tr) : Pre(j) # {} /\ SameW(co.tr[j][2], Sum(Pre(j)))
=============================================================================
