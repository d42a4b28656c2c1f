------------------------------ MODULE GrammarsGen ------------------------------
(* Every list of at most GEN_N rules of the model. *)
EXTENDS GrammarsMC, SequencesExt, Json, IOUtils
N == atoi(IOEnv.GEN_N)
Kind == IOEnv.GEN_KIND
Lists(n) == UNION {[1..k -> Rules] : k \in 0..n}
OneComp == {r \in Rules : Len(r.comp) = 1} \cup {R("S", <<<<T(b), V(1, 0), T(a), V(0, 0), T(b)>>>>, <<"B", "S">>, 2), R("B", <<<<V(0, 0), V(0, 1)>>>>, <<"A">>, 3)}
CfgLists(n) == UNION {[1..k -> OneComp] : k \in 0..n} \cup {Append(x, y) : x \in [1..(n - 1) -> OneComp], y \in Rules}
Cases_(x_) == CASE Kind = "class" -> {[kind |-> "class", initial |-> ini, rules |-> gr] : gr \in Lists(N), ini \in {<<"S">>}}
                                     \cup {[kind |-> "class", initial |-> ini, rules |-> gr] : gr \in Lists(N - 1), ini \in {<<>>, <<"A">>, <<"S", "B">>, <<"S", "S">>, <<"E">>}}
                [] Kind = "conv" -> {[kind |-> "conv", initial |-> <<ini>>, rules |-> gr] : ini \in {"S", "A"}, gr \in {x \in Lists(N) : ConsistentFan(x) /\ InRange(x)}}
                [] Kind = "cfg" -> {[kind |-> "cfg", initial |-> ini, rules |-> gr] : ini \in {<<"S">>, <<>>, <<"B", "S">>}, gr \in CfgLists(N)}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases_(0)))
GenSpec == Init /\ [][UNCHANGED vars]_vars
=============================================================================
