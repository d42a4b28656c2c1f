--------------------------- MODULE AutomatonTextMC ---------------------------
(* Small automata in several layouts, with noise in between: the reader finds what was written; the printed form reads back; a cut transition fails. *)
EXTENDS AutomatonText
CONSTANTS Kinds, MaxTrs, Rich, AllForms
Forms == {f \in [kind : Kinds, sym : {"int", "str"}, wt : {"int", "log"}] : AllForms \/ (f.sym = "int" <=> f.wt = "int")}
States(f) == IF f.sym = "int" THEN {<<48>>, <<49, 50>>} ELSE {<<83>>, <<97, 35>>}
Insts(f) == IF f.kind = "fsa" THEN {<<"F", a, b>> : a, b \in States(f)}
            ELSE LET a == CHOOSE s \in States(f) : TRUE b == CHOOSE s \in States(f) : s # a IN {<<"Up", 0, a, b, a>>, <<"Push", 12, b, a>>, <<"Down", a, b, b>>}
WordsOf == {<<>>, <<<<97>>>>, <<<<97>>, <<97, 32, 8594>>>>}
Weights(f) == {1000000, IF f.wt = "int" THEN 3000000 ELSE 250000}
Trs(f) == [word : WordsOf, ins : Insts(f), w : Weights(f)]
AllLayouts == [arrow : {<<ARROW>>, <<DASH, GT>>}, b : {<<SP>>, <<SP, TAB, SP>>}, quote : BOOLEAN, tight : BOOLEAN, comment : {<<>>, <<SP, PCT, SP, 120>>}, lead : {<<>>, <<SP, TAB>>}]
Layout == IF Rich THEN AllLayouts ELSE {l \in AllLayouts : (l.comment = <<>> <=> l.lead = <<>>) /\ (l.tight <=> l.b = <<SP>>) /\ (l.quote <=> l.arrow = <<ARROW>>)}
B(l) == IF l.tight THEN <<>> ELSE l.b
LSym(l, w) == IF l.quote \/ w = <<97, 32, 8594>> THEN Q(w) ELSE w
LIns(l, i) == <<LPAR>> \o B(l) \o (CASE i[1] = "F" -> Join(<<i[2], l.arrow, i[3]>>, l.b)
                            [] i[1] = "Up" -> Join(<<cUP, Digits(i[2]), i[3], i[4], i[5]>>, l.b)
                            [] i[1] = "Push" -> Join(<<cPUSH, Digits(i[2]), i[3], i[4]>>, l.b)
                            [] i[1] = "Down" -> Join(<<cDOWN, i[2], i[3], i[4]>>, l.b)) \o B(l) \o <<RPAR>>
LTrans(l, t) == l.lead \o cTRANS \o B(l) \o <<LBR>> \o Join([k \in 1..Len(t.word) |-> LSym(l, t.word[k])], <<COMMA>> \o B(l)) \o <<RBR>> \o B(l) \o LIns(l, t.ins)
                \o (IF t.w = One /\ l.tight THEN <<>> ELSE B(l) \o <<HASH>> \o B(l) \o WText(t.w)) \o l.comment
LInit(l, q) == l.lead \o cINITIAL \o B(l) \o (IF 35 \in {q[k] : k \in 1..Len(q)} THEN Q(q) ELSE LSym(l, q)) \o l.comment
LFinal(l, qs) == l.lead \o cFINAL \o B(l) \o <<LBR>> \o Join([k \in 1..Len(qs) |-> Q(qs[k])], <<COMMA>> \o B(l)) \o B(l) \o <<RBR>> \o l.comment
Noise == {<<>>, <<SP, TAB, LF, SP, PCT, LBR, CR, LF, LF>>}
VARIABLES text, wi, wf, wt, building, lay, noise
vars == <<rvars, text, wi, wf, wt, building, lay, noise>>
MCInit == \E f \in Forms : RInit(<<>>, f) /\ lay \in Layout /\ noise \in Noise /\ text = <<>> /\ wi = <<>> /\ wf = <<>> /\ wt = <<>> /\ building = TRUE
Write == /\ building
         /\ \/ /\ Len(wt) < MaxTrs
               /\ \E t \in Trs(form) : text' = text \o noise \o LTrans(lay, t) \o <<LF>> /\ wt' = Append(wt, t)
               /\ UNCHANGED <<wi, wf>>
            \/ /\ wi = <<>> /\ \E q \in States(form) : text' = text \o LInit(lay, q) \o <<LF>> /\ wi' = <<q>>
               /\ UNCHANGED <<wf, wt>>
            \/ /\ wf = <<>> /\ form.kind = "fsa" /\ wi # <<>>
               /\ \E qs \in {<<q>> : q \in States(form)} \cup {<<a, b>> : a, b \in States(form)} : text' = text \o LFinal(lay, qs) \o <<LF>> /\ wf' = <<qs>>
               /\ UNCHANGED <<wi, wt>>
         /\ UNCHANGED <<rvars, building, lay, noise>>
Start == building /\ building' = FALSE /\ lines' = Lines(text) /\ UNCHANGED <<form, initial, finals, trs, status, text, wi, wf, wt, lay, noise>>
MCNext == Write \/ Start \/ (~building /\ ReadLine /\ UNCHANGED <<text, wi, wf, wt, building, lay, noise>>)
MCSpec == MCInit /\ [][MCNext]_vars
Done == ~building /\ lines = <<>>
FoundAll == Done => initial = wi /\ finals = wf /\ trs = wt /\ status = "ok"
Agrees == Done => Read(text, form) = [ini |-> initial, fin |-> finals, trs |-> trs, st |-> Verdict([ini |-> initial, fin |-> finals, trs |-> trs, st |-> status], form)]
Needed == Done => (Read(text, form).st = "ok" <=> (wi # <<>> /\ (form.kind = "fsa" => wf # <<>>)))
RoundTrip == Done /\ Read(text, form).st = "ok" /\ Printable(wi[1], IF wf = <<>> THEN <<>> ELSE wf[1], wt) =>
               LET r == Read(PAut(wi[1], IF wf = <<>> THEN <<>> ELSE wf[1], wt, form.kind), form) IN r.ini = wi /\ r.fin = wf /\ r.trs = wt /\ r.st = "ok"
CutFails == building => \A k \in 1..Len(wt) :
   LET t == PTrans(wt[k]) e == WhileNot(t, 1, {RPAR}) IN \A p \in 1..(e - 1) : TransLine(SubSeq(t, 1, p), form.kind, form.sym, form.wt).s = "fail"
=============================================================================
