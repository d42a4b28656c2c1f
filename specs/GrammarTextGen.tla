--------------------------- MODULE GrammarTextGen ---------------------------
(* Texts from the specification: every rule in every layout (GEN_MODE "layout"), and every cut, deletion, insertion and *)
(* replacement of one character in some texts (GEN_MODE "damage").                                                      *)
EXTENDS GrammarTextMC, SequencesExt, Json, IOUtils
Ini(l) == (IF l.quote THEN l.lead ELSE <<>>) \o cINITIAL \o B(l) \o <<LBR>> \o LSym(l, <<83>>) \o <<COMMA>> \o l.b \o LSym(l, <<97, 32, 8594>>) \o <<RBR>> \o l.comment \o <<LF>>
OneIni == cINITIAL \o <<LBR, 83, RBR, LF>>
Case_(k, t, p) == [kind |-> k, sym |-> "str", wt |-> IF Len(t) % 2 = 0 THEN "f64" ELSE "log", text |-> t, print |-> p]
Layouts(x_) == UNION {{Case_(k, Ini(l) \o LRule(l, r, k) \o <<LF>>, TRUE) : r \in Rules(k), l \in Layout} : k \in {"cfg", "pmcfg"}}
   \cup {Case_("lcfrs", OneIni \o n \o LRule(l, r, "pmcfg") \o n, FALSE) : r \in {x \in Rules("pmcfg") : x.w = One}, l \in Layout, n \in Noise}
   \cup UNION {{Case_(k \o "rule", LRule(l, r, k), TRUE) : r \in Rules(k), l \in {x \in Layout : x.lead = <<>>}} : k \in {"cfg", "pmcfg"}}
BaseRules(k) == {r \in Rules(k) : r.w # One /\ r.head = <<83>> /\ Len(r.comp) = (IF k = "cfg" THEN 2 ELSE 2) /\ Len(r.tail) # 1}
BaseTexts(k) == UNION {{LRule([arrow |-> <<DASH, GT>>, b |-> <<SP>>, quote |-> q, tight |-> FALSE, comment |-> <<SP, PCT, 120>>, lead |-> <<>>], r, k) : q \in BOOLEAN} : r \in BaseRules(k)}
Significant == {SP, QUOTE, BSL, PCT, HASH, COMMA, LBR, RBR, LPAR, RPAR, DASH, ARROW, 48, 57, 97, 228, 8222}
Damaged(t) == {SubSeq(t, 1, p) : p \in 0..Len(t)}
   \cup {SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, Len(t)) : p \in 1..Len(t)}
   \cup {SubSeq(t, 1, p) \o <<x>> \o SubSeq(t, p + 1, Len(t)) : p \in 0..Len(t), x \in Significant}
   \cup {[t EXCEPT ![p] = x] : p \in 1..Len(t), x \in Significant}
Damages(x_) == UNION {UNION {{Case_(k \o "rule", d, TRUE) : d \in Damaged(t)} : t \in BaseTexts(k)} : k \in {"cfg", "pmcfg"}}
   \cup UNION {{Case_(k, d \o <<LF, 83, DASH, GT, LBR, RBR>> \o (IF k = "cfg" THEN <<>> ELSE <<LPAR, RPAR>>), FALSE) : d \in Damaged(Ini([b |-> <<SP>>, quote |-> FALSE, tight |-> FALSE, comment |-> <<>>, lead |-> <<>>]))} : k \in {"cfg", "pmcfg", "lcfrs"}}
ASSUME ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(IF IOEnv.GEN_MODE = "layout" THEN Layouts(0) ELSE Damages(0)))
GenSpec == MCInit /\ [][UNCHANGED vars]_vars
=============================================================================
