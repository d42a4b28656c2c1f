--------------------------- MODULE AutomatonTextGen ---------------------------
(* Texts from the specification: every transition in every layout between declarations in the same layout (GEN_MODE "layout"), *)
(* and every cut, deletion, insertion and replacement of one character in some texts (GEN_MODE "damage").                      *)
EXTENDS AutomatonTextMC, SequencesExt, Json, IOUtils
Case_(what, f, t, p) == [what |-> what, form |-> f.kind, sym |-> f.sym, wt |-> f.wt, text |-> t, print |-> p]
Fins(f) == {<<q>> : q \in States(f)} \cup {<<CHOOSE z \in States(f) : TRUE, CHOOSE z \in States(f) : z # CHOOSE r \in States(f) : TRUE>>}
Layouts(x_) ==
  UNION {UNION {{Case_("aut", f, LInit(l, CHOOSE z \in States(f) : TRUE) \o <<LF>> \o (IF f.kind = "fsa" THEN LFinal(l, q) \o <<LF>> ELSE <<>>) \o n \o LTrans(l, t) \o <<LF>> \o n, TRUE)
                 : q \in (IF f.kind = "fsa" THEN Fins(f) ELSE {<<>>}), l \in Layout, n \in Noise} : t \in Trs(f)} : f \in Forms}
  \cup UNION {{Case_("trans", f, LTrans(l, t), TRUE) : t \in Trs(f), l \in {x \in Layout : x.lead = <<>>}} : f \in Forms}
Lay0 == [arrow |-> <<DASH, GT>>, b |-> <<SP>>, quote |-> TRUE, tight |-> FALSE, comment |-> <<SP, PCT, 120>>, lead |-> <<>>]
LayQ == [Lay0 EXCEPT !.quote = FALSE, !.arrow = <<ARROW>>, !.comment = <<>>]
BaseTrs(f) == {t \in Trs(f) : t.w # One /\ Len(t.word) = 2 /\ (t.ins[1] # "F" \/ t.ins[2] # t.ins[3])}
Head_(l, f) == LInit(l, CHOOSE z \in States(f) : TRUE) \o <<LF>> \o (IF f.kind = "fsa" THEN LFinal(l, CHOOSE z \in Fins(f) : Len(z) = 2) ELSE <<>>)
Significant == {SP, QUOTE, BSL, PCT, HASH, COMMA, LBR, RBR, LPAR, RPAR, DASH, ARROW, 48, 57, 97, 228, 8222}
Damaged(t) == {SubSeq(t, 1, p) : p \in 0..Len(t)}
   \cup {SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, Len(t)) : p \in 1..Len(t)}
   \cup {SubSeq(t, 1, p) \o <<x>> \o SubSeq(t, p + 1, Len(t)) : p \in 0..Len(t), x \in Significant}
   \cup {[t EXCEPT ![p] = x] : p \in 1..Len(t), x \in Significant}
Damages(x_) ==
  UNION {UNION {{Case_("trans", f, d, TRUE) : d \in Damaged(LTrans(l, CHOOSE t \in BaseTrs(f) : TRUE))} : l \in {Lay0, LayQ}} : f \in Forms}
  \cup UNION {UNION {{Case_("instr", f, d, TRUE) : d \in Damaged(LET t == LIns(Lay0, i) IN SubSeq(t, 2, Len(t) - 1))} : i \in {i \in Insts(f) : f.kind = "tsa" \/ i[2] # i[3]}} : f \in Forms}
  \cup UNION {UNION {{Case_("aut", f, d \o <<LF>> \o LTrans(l, CHOOSE t \in BaseTrs(f) : TRUE), FALSE) : d \in Damaged(Head_(l, f))} : l \in {Lay0, LayQ}} : f \in Forms}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(IF IOEnv.GEN_MODE = "layout" THEN Layouts(0) ELSE Damages(0)))
GenSpec == MCInit /\ [][UNCHANGED vars]_vars
=============================================================================
