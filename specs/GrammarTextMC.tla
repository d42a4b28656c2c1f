---------------------------- MODULE GrammarTextMC ----------------------------
(***************************************************************************)
(* Every small grammar in every layout from a small set, with blank and    *)
(* comment lines in between: the reader finds exactly what was written.    *)
(***************************************************************************)
EXTENDS GrammarText
CONSTANTS Kinds, MaxRules, Rich
\* symbols: S, a, ä→ needs quotes, and one that looks like a comment
Syms == {<<83>>, <<97>>, <<97, 32, 8594>>, <<37, 35>>}
Bare == {<<83>>, <<97>>}
Comps(k) == IF k = "cfg" THEN {<<>>, <<<<"T", <<97>>>>>>, <<<<"N", <<37, 35>>>>, <<"T", <<97, 32, 8594>>>>>>}
            ELSE {<<<<>>>>, <<<<<<"V", 0, 0>>, <<"T", <<97>>>>>>, <<<<"V", 0, 1>>>>>>}
Tails(k) == IF k = "cfg" THEN {<<>>} ELSE {<<>>, <<<<83>>>>, <<<<97, 32, 8594>>, <<83>>>>}
Rules(k) == [head : {<<83>>, <<97, 32, 8594>>}, tail : Tails(k), comp : Comps(k), w : {1000000, 250000}]
Arrows == {<<ARROW>>, <<DASH, GT>>, <<EQ, GT>>}
\* layouts: arrow, blanks, quoting, comment
AllLayouts == [arrow : Arrows, b : {<<SP>>, <<SP, TAB, SP>>}, quote : BOOLEAN, tight : BOOLEAN, comment : {<<>>, <<SP, PCT, SP, 120>>}, lead : {<<>>, <<SP, TAB>>}]
Layout == IF Rich THEN AllLayouts ELSE {l \in AllLayouts : (l.comment = <<>> <=> l.lead = <<>>) /\ (l.tight <=> l.b = <<SP>>)}
LSym(l, w) == IF l.quote \/ w \notin Bare THEN Q(w) ELSE w
B(l) == IF l.tight THEN <<>> ELSE l.b
LLet(l, x) == CASE x[1] = "V" -> cVAR \o l.b \o Digits(x[2]) \o l.b \o Digits(x[3])
                [] x[1] = "T" -> cT \o l.b \o LSym(l, x[2])
                [] x[1] = "N" -> cNT \o l.b \o LSym(l, x[2])
Sep(l) == (IF l.quote THEN B(l) ELSE <<>>) \o <<COMMA>> \o B(l)
LSeq(l, s) == <<LBR>> \o B(l) \o Join([k \in 1..Len(s) |-> LLet(l, s[k])], Sep(l)) \o (IF l.quote THEN B(l) ELSE <<>>) \o <<RBR>>
LRule(l, r, k) == l.lead \o LSym(l, r.head) \o l.b \o l.arrow \o B(l)
   \o (IF k = "cfg" THEN LSeq(l, r.comp)
       ELSE <<LBR>> \o Join([m \in 1..Len(r.comp) |-> LSeq(l, r.comp[m])], Sep(l)) \o B(l) \o <<RBR>> \o B(l)
            \o <<LPAR>> \o Join([m \in 1..Len(r.tail) |-> LSym(l, r.tail[m])], <<COMMA>> \o B(l)) \o <<RPAR>>)
   \o (IF r.w = One /\ l.tight THEN <<>> ELSE B(l) \o <<HASH>> \o B(l) \o WText(r.w))
   \o l.comment
Noise == IF ~Rich THEN {<<>>, <<SP, TAB, LF, SP, PCT, LBR, CR, LF>>} ELSE {<<>>, <<LF>>, <<SP, TAB, LF>>, <<PCT, 97, LF>>, <<SP, PCT, LBR, CR, LF>>}
VARIABLES text, want, wantIni, building
vars == <<rvars, text, want, wantIni, building>>
MCInit == \E k \in Kinds : RInit(<<>>, k) /\ text = <<>> /\ want = <<>> /\ wantIni = <<>> /\ building = TRUE
Write == /\ building
         /\ \/ /\ Len(want) < MaxRules
               /\ \E r \in Rules(kind), l \in Layout, n \in Noise :
                    /\ text' = text \o n \o LRule(l, r, kind) \o <<LF>>
                    /\ want' = Append(want, r)
               /\ UNCHANGED <<wantIni>>
            \/ /\ wantIni = <<>> /\ want = <<>>
               /\ \E q \in {<<<<83>>>>, <<<<97, 32, 8594>>, <<83>>>>}, b \in {<<>>, <<SP>>} :
                    /\ wantIni' = wantIni \o q
                    /\ text' = text \o b \o cINITIAL \o b \o <<LBR>> \o Join([k \in 1..Len(q) |-> Q(q[k])], <<COMMA>> \o b) \o <<RBR, LF>>
               /\ UNCHANGED want
         /\ building' = TRUE /\ UNCHANGED rvars
Start == building /\ building' = FALSE /\ lines' = Lines(text) /\ UNCHANGED <<kind, initial, rules, status, text, want, wantIni>>
MCNext == Write \/ Start \/ (~building /\ ReadLine /\ UNCHANGED <<text, want, wantIni, building>>)
MCSpec == MCInit /\ [][MCNext]_vars
Done == ~building /\ lines = <<>>
FoundAll == Done => rules = want /\ initial = wantIni /\ status = "ok"
Agrees == Done => Read(text, "cfg" ) = Read(text, "cfg") /\ LET r == Read(text, kind) IN r.rules = rules /\ r.initial = initial /\ r.s = Verdict(status, kind, initial)
RoundTrip == building => LET r == Read(PGrammar(wantIni, want, kind), kind) IN r.rules = want /\ r.initial = wantIni
\* a line loses its meaning if it is cut before its last required part
CutFails == building => \A i \in 1..Len(want) :
   LET t == PRule(want[i], kind)
       req == IF kind = "cfg" THEN CHOOSE p \in 1..Len(t) : t[p] = RBR /\ \A q \in (p + 1)..Len(t) : t[q] # RBR
              ELSE CHOOSE p \in 1..Len(t) : t[p] = RPAR /\ \A q \in (p + 1)..Len(t) : t[q] # RPAR
   IN \A p \in 1..(req - 1) : Rule(SubSeq(t, 1, p), kind).s = "fail"
=============================================================================
