----------------------------- MODULE TreebankTrace -----------------------------
EXTENDS Treebank, TraceBase
VARIABLES cons,   \* the rules read from the constituents, or <<>>
          lx      \* the rules read from the lexicon
vars == <<cons, lx>>
TInit == TraceInit /\ cons = <<>> /\ lx = <<>>
\* may the reader succeed, and may it fail?
OkFor(r, ok) == IF ok THEN r.k # "err" ELSE r.k # "ok"
WOK(all, r, w8) == LET sh == Share(all, r) IN sh = <<0, 0>> \/ Close(w8, Frac8(sh))
RuleOK(all, r, o) == o.head = r.head /\ o.tail = r.tail /\ o.comp = r.comp /\ WOK(all, r, o.w8)
NoZero(rs) == \A k \in 1..Len(rs) : rs[k].w[2] # 0 /\ \E m \in 1..Len(rs) : rs[m].head = rs[k].head /\ rs[m].w[1] # 0
Undef == IF Case.kind # "disco" THEN FALSE
         ELSE LET r == Constituents(Case.text) q == IF Case.lex = <<>> THEN Ok(<<>>) ELSE Lexicon(Case.lex[1])
              IN \/ r.k # "err" /\ (\E k \in 1..Len(r.v) : r.v[k].w[2] = 0 \/ ~NoZero(r.v))
                 \/ q.k # "err" /\ (\E k \in 1..Len(q.v) : q.v[k].w[2] = 0)
                 \/ r.k # "err" /\ q.k # "err" /\ ~NoZero(r.v \o q.v)
\* a lexicon line that begins with a blank may have the empty word
FreeLex == IF Case.lex = <<>> THEN FALSE ELSE LET t == Case.lex[1] IN \E k \in 1..Len(t) : t[k] \in Blank /\ (IF k = 1 THEN TRUE ELSE t[k - 1] \in {LF, CR})
Step(e) ==
  \/ e.op = "cons" /\ LET r == Constituents(Case.text) IN OkFor(r, e.ok) = TRUE /\ cons' = (IF e.ok THEN r.v ELSE <<>>) /\ UNCHANGED lx
  \/ e.op = "lex" /\ LET r == Lexicon(Case.lex[1]) IN (FreeLex \/ OkFor(r, e.ok)) = TRUE /\ lx' = (IF e.ok /\ r.k # "err" THEN r.v ELSE <<>>) /\ UNCHANGED cons
  \/ /\ e.op = "gram"
     /\ LET all == cons \o lx
            o == e.res.rules
        IN (FreeLex \/ (/\ e.res.initial = ROOT /\ Len(o) = Len(all)
            /\ \A k \in 1..Len(all) : RuleOK(all, all[k], o[k]))) = TRUE
     /\ UNCHANGED vars
  \* with the default lexicon: one rule with weight one for each nonterminal that has none, in any order
  \/ /\ e.op = "dgram"
     /\ LET o == e.res.rules n == Len(cons) new == OnlyRight(cons)
        IN (/\ e.res.initial = ROOT /\ Len(o) = n + Cardinality(new)
            /\ \A k \in 1..n : RuleOK(cons, cons[k], o[k])
            /\ {[o[k] EXCEPT !.w8 = 0] : k \in (n + 1)..Len(o)} = {[head |-> p, tail |-> <<>>, comp |-> <<<<<<"T", p>>>>>>, w8 |-> 0] : p \in new}
            /\ \A k \in (n + 1)..Len(o) : Close(o[k].w8, 100000000)) = TRUE
     /\ UNCHANGED vars
  \/ /\ e.op = "rparse"
     /\ LET r == Clauses(Case.text)
        IN (IF e.res = <<>> THEN OkFor(r, FALSE)
            ELSE IF OkFor(r, TRUE)
            THEN /\ e.res[1].initial = VROOT1 /\ Len(e.res[1].rules) = Len(r.v)
                 /\ \A k \in 1..Len(r.v) : LET o == e.res[1].rules[k] q == r.v[k]
                                           IN o.head = q.head /\ o.tail = q.tail /\ o.comp = q.comp /\ (q.w = <<>> \/ o.m = q.w[1])
            ELSE FALSE) = TRUE
     /\ UNCHANGED vars
  \* a division by zero is the arithmetic's affair
  \/ e.op = "panic" /\ Undef = TRUE /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
