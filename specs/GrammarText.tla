----------------------------- MODULE GrammarText -----------------------------
(***************************************************************************)
(* The grammar formats of the README as a reader of texts (tokens, lists   *)
(* and lines: GrammarTokens).  The reader of a whole text is a state       *)
(* machine over its lines.                                                 *)
(***************************************************************************)
EXTENDS GrammarTokens
\* the reader: lines that are still to be read, and what was read so far
VARIABLES lines, kind, initial, rules, status
rvars == <<lines, kind, initial, rules, status>>
RInit(t, k) == lines = Lines(t) /\ kind = k /\ initial = <<>> /\ rules = <<>> /\ status = "ok"
Worse(s) == IF status = "fail" \/ s = "fail" THEN "fail" ELSE IF status = "free" \/ s = "free" THEN "free" ELSE "ok"
RuleKind(k) == IF k = "cfg" THEN "cfg" ELSE "pmcfg"
Line == Trim(Head(lines))
Open(t) == t[1] \in FarWhite \/ t[Len(t)] \in FarWhite
Ignored == IF Line = <<>> THEN TRUE ELSE Line[1] = PCT
ReadIgnored == lines # <<>> /\ Ignored /\ lines' = Tail(lines) /\ UNCHANGED <<kind, initial, rules, status>>
ReadInitials == /\ lines # <<>> /\ ~Ignored /\ IsInitial(Line)
                /\ LET r == IF Open(Line) THEN Free ELSE Initials(Line)
                   IN /\ status' = Worse(r.s)
                      /\ initial' = IF r.s = "ok" THEN initial \o r.v ELSE initial
                /\ lines' = Tail(lines) /\ UNCHANGED <<kind, rules>>
ReadRule == /\ lines # <<>> /\ ~Ignored /\ ~IsInitial(Line)
            /\ LET r == IF Open(Line) THEN Free ELSE Rule(Line, RuleKind(kind))
               IN /\ status' = Worse(r.s)
                  /\ rules' = IF r.s = "ok" THEN Append(rules, r.v) ELSE rules
            /\ lines' = Tail(lines) /\ UNCHANGED <<kind, initial>>
ReadLine == ReadIgnored \/ ReadInitials \/ ReadRule
Elems(s) == {s[k] : k \in 1..Len(s)}
\* the verdict once all lines are read: an LCFRS has exactly one initial nonterminal
Verdict(st, k, ini) == IF st = "ok" /\ k = "lcfrs" /\ Len(ini) # 1
                       THEN (IF Cardinality(Elems(ini)) = 1 THEN "free" ELSE "fail") ELSE st

\* the whole reading as a function
RECURSIVE ReadAll(_, _, _, _, _)
ReadAll(ls, k, ini, rs, st) ==
  IF ls = <<>> THEN [s |-> Verdict(st, k, ini), initial |-> ini, rules |-> rs]
  ELSE LET t == Trim(Head(ls))
           worse(s) == IF st = "fail" \/ s = "fail" THEN "fail" ELSE IF st = "free" \/ s = "free" THEN "free" ELSE "ok"
       IN IF t = <<>> \/ t[1] = PCT THEN ReadAll(Tail(ls), k, ini, rs, st)
          ELSE IF Open(t) THEN ReadAll(Tail(ls), k, ini, rs, worse("free"))
          ELSE IF IsInitial(t)
               THEN LET r == Initials(t) IN ReadAll(Tail(ls), k, IF r.s = "ok" THEN ini \o r.v ELSE ini, rs, worse(r.s))
               ELSE LET r == Rule(t, RuleKind(k)) IN ReadAll(Tail(ls), k, ini, IF r.s = "ok" THEN Append(rs, r.v) ELSE rs, worse(r.s))
Read(t, k) == ReadAll(Lines(t), k, <<>>, <<>>, "ok")

--------------------------------------------------------------------------
\* printing (the documented notation with every symbol quoted); mill is the weight as text
Q(w) == <<QUOTE>> \o w \o <<QUOTE>>
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
CS == <<COMMA, SP>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Frac(_, _)
Frac(n, d) == IF d = 0 THEN <<>> ELSE Frac(n \div 10, d - 1) \o <<48 + (n % 10)>>
WText(m) == Digits(m \div 1000000) \o (IF m % 1000000 = 0 THEN <<>> ELSE <<DOT>> \o Frac(m % 1000000, 6))
PLetter(x) == CASE x[1] = "N" -> cNT \o <<SP>> \o Q(x[2])
                [] x[1] = "T" -> cT \o <<SP>> \o Q(x[2])
                [] x[1] = "V" -> cVAR \o <<SP>> \o Digits(x[2]) \o <<SP>> \o Digits(x[3])
PSeq(s) == <<LBR>> \o Join([k \in 1..Len(s) |-> PLetter(s[k])], CS) \o <<RBR>>
PRule(r, k) == Q(r.head) \o <<SP, ARROW, SP>>
               \o (IF k = "cfg" THEN PSeq(r.comp)
                   ELSE <<LBR>> \o Join([m \in 1..Len(r.comp) |-> PSeq(r.comp[m])], CS) \o <<RBR>> \o <<SP, LPAR>>
                        \o Join([m \in 1..Len(r.tail) |-> Q(r.tail[m])], CS) \o <<RPAR>>)
               \o <<SP, SP, HASH, SP>> \o WText(r.w)
PGrammar(ini, rs, k) == cINITIAL \o <<SP, LBR>> \o Join([m \in 1..Len(ini) |-> Q(ini[m])], CS) \o <<RBR, LF, LF>>
                        \o Join([m \in 1..Len(rs) |-> PRule(rs[m], k) \o <<LF>>], <<>>)
=============================================================================
