--------------------------- MODULE TransitionValueGen ---------------------------
(* All pairs of small transitions of each kind. *)
EXTENDS TransitionValueMC, SequencesExt, Json, IOUtils
Of(kind) == {i \in Instrs : i[1] \in kind}
Ts(kind) == {[word |-> u, ins |-> i, w |-> w] : u \in Upto(Syms, MaxWord), i \in Of(kind), w \in Weights}
Script == <<<<"t", 1>>, <<"t", 2>>, <<"back", 1>>, <<"t", 1>>, <<"back", 2>>, <<"back", 3>>>>
Pairs_(name, kind) == {[kind |-> name, trans |-> <<t, u>>, script |-> Script] : t \in Ts(kind), u \in Ts(kind)}
Cases_(x_) == Pairs_("pd", {"R"}) \cup Pairs_("ts", {"Push", "Down"}) \cup Pairs_("fs", {"F"})
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases_(0)))
GenSpec == Init /\ [][UNCHANGED vars]_vars
=============================================================================
