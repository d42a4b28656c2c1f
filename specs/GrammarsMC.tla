------------------------------ MODULE GrammarsMC ------------------------------
(* Small grammars, grown rule by rule; the conversions as worklist algorithms. *)
EXTENDS Grammars
CONSTANTS MaxRules, Depth, Pool
a == "a"  b == "b"
T(x) == <<"T", x>>
V(i, j) == <<"V", i, j>>
R(h, c, t, w) == [head |-> h, comp |-> c, tail |-> t, w |-> w]
\* S has one component, A two, B one; some rules delete, copy or leave the range, C has no rules
Core == {R("S", <<<<V(0, 1), T(a)>>>>, <<"A">>, 2), R("S", <<<<V(0, 0), V(0, 1)>>>>, <<"A">>, 3), R("S", <<<<V(1, 0), V(0, 0)>>>>, <<"B", "S">>, 5),
         R("S", <<<<T(a)>>>>, <<>>, 7), R("S", <<<<V(1, 0)>>>>, <<"A", "B">>, 11),
         R("A", <<<<T(a), V(0, 0)>>, <<V(0, 1), T(b)>>>>, <<"A">>, 2), R("A", <<<<V(0, 1)>>, <<>>>>, <<"A">>, 3), R("A", <<<<T(a)>>, <<T(b)>>>>, <<>>, 5),
         R("A", <<<<V(1, 0)>>, <<V(0, 0)>>>>, <<"B", "B">>, 7),
         R("B", <<<<T(b)>>>>, <<>>, 2), R("B", <<<<V(0, 0), T(b)>>>>, <<"B">>, 3), R("B", <<<<>>>>, <<>>, 5)}
Odd == {R("B", <<<<V(0, 0)>>>>, <<"C">>, 2), R("S", <<<<V(0, 0), V(0, 0)>>>>, <<"B">>, 3), R("S", <<<<V(0, 0)>>>>, <<"B">>, 3), R("A", <<<<T(a)>>>>, <<>>, 5),
        R("S", <<<<V(1, 0)>>>>, <<"B">>, 7), R("S", <<<<T(a)>>>>, <<"D">>, 5), R("D", <<>>, <<>>, 11), R("S", <<<<V(0, 0)>>>>, <<"B", "D">>, 2)}
Rules == CASE Pool = "core" -> Core [] Pool = "all" -> Core \cup Odd
VARIABLES phase, g, todo, done, out
vars == <<phase, g, todo, done, out>>
Init == phase = "grow" /\ g = <<>> /\ todo = {} /\ done = {} /\ out = <<>>
Grow == /\ phase = "grow" /\ Len(g) < MaxRules
        /\ \E r \in Rules : (g # <<>> => (\A k \in 1..Len(g) : g[k].head = r.head => Len(g[k].comp) = Len(r.comp))) /\ g' = Append(g, r)
        /\ UNCHANGED <<phase, todo, done, out>>
InRange(rs) == \A k \in 1..Len(rs) : LinearRule(rs[k]) /\ (Defined(rs, rs[k]) => \A m \in 1..Len(VarSeq(rs[k])) : Range_(rs, rs[k], VarSeq(rs[k])[m]))
Start == /\ phase = "grow" /\ g # <<>> /\ "S" \in Heads(g) /\ InRange(g)
         /\ phase' = "conv" /\ todo' = {<<"S", {}>>} /\ UNCHANGED <<g, done, out>>
Convert == /\ phase = "conv"
           /\ \E st \in todo : /\ out' = out \o RulesOf(g, st)
                               /\ done' = done \cup {st}
                               /\ todo' = (todo \cup NextStates(g, st)) \ (done \cup {st})
           /\ UNCHANGED <<phase, g>>
Finish == phase = "conv" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<g, todo, done, out>>
Next == Grow \/ Start \/ Convert \/ Finish
Spec == Init /\ [][Next]_vars

\* the conversion deletes nothing, and keeps the derivations with their weights
ConversionOK == phase = "done" =>
   /\ SameBag(out, Conv(g, "S"))
   /\ ConsistentFan(out)
   /\ (\A k \in 1..Len(out) : Defined(out, out[k])) => (\A k \in 1..Len(out) : UsesEachOnce(out, out[k]))
   /\ SameBag(Derivs(g, "S", Depth), Derivs(out, <<"S", {}>>, Depth))
\* a conversion of an LCFRS changes names only
LcfrsStays == (phase = "done" /\ IsLcfrs(g, "S")) => \A st \in done : st[2] = {}
\* an LCFRS is an MCFG; its values are as long as its rules say
Classes == (phase = "grow" /\ g # <<>> /\ IsLcfrs(g, "S")) => IsMcfg(<<"S">>, g)
\* the CFG of a one-component grammar that uses each successor once has the same derivations
CfgOK == (phase = "grow" /\ g # <<>> /\ Convertible(g) /\ \A k \in 1..Len(g) : Defined(g, g[k]) /\ UsesEachOnce(g, g[k])) =>
   SameBag(Derivs(g, "S", Depth), Derivs([k \in 1..Len(g) |-> AsPmcfg(CfgRules(g)[k])], "S", Depth))
=============================================================================
