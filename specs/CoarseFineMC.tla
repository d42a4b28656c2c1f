------------------------------ MODULE CoarseFineMC ------------------------------
(***************************************************************************)
(* Coarse-to-fine recognition: the runs of the coarse automaton come in    *)
(* one by one, best first; the runs of the fine automaton each stands for  *)
(* are tried and, if they work, wait in a buffer; the best one waiting is  *)
(* handed out once no coarse run better than it is to come.                *)
(***************************************************************************)
EXTENDS AutomataPool
CONSTANTS NTrs, NRules, NWord, Depth
VARIABLES au, s, co, word, todo, waiting, out
vars == <<au, s, co, word, todo, waiting, out>>
Sub == {<<"sym", <<<<0, 0>>, <<1, 1>>, <<2, 1>>>>>>}
NtSub == {<<"nt", <<<<1, 1>>, <<2, 1>>>>>>}
RECURSIVE Ends(_, _, _, _)
Ends(a, w, F, n) == F = {} \/ (n > 0 /\ Cardinality(F) <= 60 /\ Ends(a, w, UNION {Steps(a, w, y) : y \in F}, n - 1))
Init == /\ \/ au \in {Built(p) : p \in Pdas(NTrs)} /\ s \in Sub
           \/ au \in Tsas(NTrs + 1) /\ s = <<"tts">>
           \/ au \in {Built(OfCfg(g)) : g \in Cfgs(NRules)} /\ s \in NtSub
           \/ au \in {OfPmcfg(g) : g \in Pmcfgs(NRules)} /\ s = <<"tts">>
        /\ co = Approx(s, au)
        /\ word \in WordsUpTo({1, 2}, NWord)
        \* both searches are finite
        /\ (Ends(au, word, {Start(au)}, Depth) /\ Ends(co, word, {Start(co)}, Depth)) = TRUE
        /\ todo = Runs(co, word, 0)
        /\ waiting = {} /\ out = <<>>
Pre(j) == {i \in 1..Len(au.tr) : SameTr(co.tr[j], ApproxTr(s, au.tr[i]))}
RECURSIVE Back(_)
Back(r) == IF r = <<>> THEN {<<>>} ELSE {Append(q, i) : q \in Back(SubSeq(r, 1, Len(r) - 1)), i \in Pre(r[Len(r)])}
\* what a sequence of transitions does, apart from reading
RECURSIVE Do(_, _)
Do(st, r) == IF r = <<>> THEN {st} ELSE LET q == Succ(au.kind, Ins(au.tr[Head(r)]), st) IN IF q = <<>> THEN {} ELSE Do(q[1], Tail(r))
WOf(r) == Product([k \in 1..Len(r) |-> Wt(au.tr[r[k]])])
Refined(x) == UNION {{[r |-> r, p |-> Len(word), st |-> st, w |-> WOf(r)] : st \in {t \in Do(au.init, r) : Terminal(au, t, r)}} : r \in Back(x.r)}
BestOf(S, x) == x \in S /\ \A y \in S : Scaled(y.w) <= Scaled(x.w)
MustRead == todo # {} /\ (waiting = {} \/ LET m == CHOOSE m \in waiting : BestOf(waiting, m) n == CHOOSE n \in todo : BestOf(todo, n) IN Scaled(m.w) < Scaled(n.w))
Read == /\ MustRead = TRUE
        /\ \E x \in todo : BestOf(todo, x) /\ todo' = todo \ {x} /\ waiting' = waiting \cup Refined(x)
        /\ UNCHANGED <<au, s, co, word, out>>
Give == /\ MustRead = FALSE
        /\ \E x \in waiting : BestOf(waiting, x) /\ waiting' = waiting \ {x} /\ out' = Append(out, x)
        /\ UNCHANGED <<au, s, co, word, todo>>
Next == Read \/ Give
Spec == Init /\ [][Next]_vars
Light(a) == \A k \in 1..Len(a.tr) : Scaled(Wt(a.tr[k])) <= Scaled(One)
Disjoint == waiting \cap Rng(out) = {} /\ Cardinality(Rng(out)) = Len(out)
OnlyFine == Rng(out) \cup waiting \subseteq Runs(au, word, 0)
NothingLost == Runs(au, word, 0) = Rng(out) \cup waiting \cup UNION {Refined(x) : x \in todo}
AllOfThem == todo = {} /\ waiting = {} => Rng(out) = Runs(au, word, 0)
Ordered == Light(co) => \A k \in 1..(Len(out) - 1) : Scaled(out[k + 1].w) <= Scaled(out[k].w)
=============================================================================
