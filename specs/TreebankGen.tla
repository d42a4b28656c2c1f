------------------------------ MODULE TreebankGen ------------------------------
(* Texts of one or two lines in every layout (GEN_MODE "layout"), and each change of one character in some texts ("damage"). *)
EXTENDS TreebankMC, SequencesExt, Json, IOUtils
Ends == {<<>>, <<LF>>, <<SP, LF, LF, TAB>>}
D(t, lx, dflt, wt) == [kind |-> "disco", text |-> t, lex |-> lx, dflt |-> dflt, wt |-> wt]
RP(t) == [kind |-> "rparse", text |-> t]
Lns(f(_, _), pool, bs) == {f(r, x) : r \in pool, x \in bs}
CL(bs) == Lns(ConstText, Constits, bs)
LL(bs) == Lns(LexText, LexRules, bs)
RL(bs) == Lns(ClauseText, Constits, bs)
FewC == {Rule(S, <<A1>>, <<<<V(0, 0)>>>>, <<3, 1>>), Rule(S, <<P, S>>, <<<<V(1, 0)>>, <<V(0, 0), V(1, 1), V(0, 1)>>>>, <<5, 4>>), Rule(A1, <<P>>, <<<<V(0, 0), V(0, 1)>>, <<V(0, 2)>>>>, <<1, 6>>)}
FewT == Lns(ConstText, FewC, {<<TAB>>})
FewL == Lns(LexText, {Rule(P, <<>>, <<<<<<"T", W>>>>>>, <<3, 1>>)}, {<<TAB>>}) \cup {W \o <<TAB>> \o P \o <<SP>> \o Digits(7) \o <<TAB>> \o A1 \o <<SP>> \o <<49, SLASH, 52>>, <<120, SP, 83, SP, 50>>}
Layouts(x_) == {D(t \o e, <<>>, FALSE, "f64") : t \in CL(Bs), e \in Ends}
   \cup {D(t \o <<LF>> \o u, <<>>, TRUE, "f64") : t \in CL({<<TAB>>}), u \in CL({<<SP>>})}
   \cup {D(t \o <<LF>> \o u, <<m \o <<LF>> \o n \o e>>, FALSE, "log") : t, u \in FewT, m, n \in FewL \cup LL({<<SP>>}), e \in {<<>>, <<LF>>}}
   \cup {RP(t \o e) : t \in RL(Bs), e \in Ends}
   \cup {RP(t \o <<LF>> \o u) : t \in RL({<<SP>>}), u \in Lns(ClauseText, FewC, {<<SP>>})}
Sig == {SP, TAB, LF, CR, 48, 49, 50, COMMA, SLASH, DOT, COLON, 45, 91, 93, 83, 97, 228, 160}
Damaged(t) == {SubSeq(t, 1, p) : p \in 0..Len(t)}
   \cup {SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, Len(t)) : p \in 1..Len(t)}
   \cup {SubSeq(t, 1, p) \o <<x>> \o SubSeq(t, p + 1, Len(t)) : p \in 0..Len(t), x \in Sig}
   \cup {[t EXCEPT ![p] = x] : p \in 1..Len(t), x \in Sig}
Damages(x_) == UNION {{D(d, <<>>, FALSE, "f64") : d \in Damaged(t \o <<LF>> \o u)} : t, u \in FewT}
   \cup UNION {UNION {{D(t, <<d>>, FALSE, "f64") : d \in Damaged(u)} : u \in FewL} : t \in FewT}
   \cup UNION {{RP(d) : d \in Damaged(t)} : t \in Lns(ClauseText, FewC, {<<SP>>})}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(IF IOEnv.GEN_MODE = "layout" THEN Layouts(0) ELSE Damages(0)))
GenSpec == Init /\ [][UNCHANGED vars]_vars
=============================================================================
