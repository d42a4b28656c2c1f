--------------------------- MODULE CommandLineTrace ---------------------------
EXTENDS CommandLine, TraceBase
VARIABLES h, made      \* the grammar; whether its representation was extracted
vars == <<h, made>>
TInit == TraceInit /\ h = [rules |-> Case.rules, init |-> Case.init] /\ made = FALSE
BIG == 1000000
Name(x) == Case.names[x]
Spelled(w) == [k \in 1..Len(w) |-> Name(w[k])]
Printed(e, s) == IF e.pos THEN s.toks ELSE Spelled(s.word)
Tags(e, s) == IF e.pos THEN Spelled(s.word) ELSE [k \in 1..Len(s.word) |-> "--"]
Id(e, k) == IF e.ids THEN e.lines[k].id ELSE k - 1
Cands(s) == LET f == Masked(h, s.word) IN Top(f, s.word, Table(f, s.word, BIG))
Free(e, s) == IF e.beam = -1 /\ e.delta = -1 THEN TRUE ELSE LET f == Masked(h, s.word) IN Roomy(f, s.word, Table(f, s.word, BIG), e.beam, e.delta)
\* what is printed for one sentence without debugging
SentenceOk(e, s, blocks) ==
  LET f == Masked(h, s.word) D == Cands(s) ws == Printed(e, s) k == IF e.k = -1 THEN 1 ELSE e.k
      none == NoParse(ws, Tags(e, s))
      parsed == IF Free(e, s) THEN AreBest(f, D, k, e.cand, ws, blocks) ELSE AreSome(f, D, k, e.cand, ws, blocks)
      nothing == IF Free(e, s) THEN NoneBest(f, D, k, e.cand) ELSE TRUE
  IN \/ blocks # <<>> /\ parsed
     \/ Len(blocks) = 1 /\ nothing /\ IF e.fall /\ (Free(e, s) => D # {})
                                      THEN \/ Falls(f, IF Free(e, s) THEN Best(D) ELSE D, ws, blocks[1])
                                           \/ ~Free(e, s) /\ blocks[1] = none
                                      ELSE blocks[1] = none
\* debugging: one block, and a line <<number of rules, length, time..., what it is, number of candidates>>
DebugOk(e, s, blocks, err) ==
  LET f == Masked(h, s.word) D == Cands(s) G == Good(f, D) ws == Printed(e, s) n == Len(err)
      what == err[n - 1] count == err[n]
      counted(k) == count = ToString(k)
  IN /\ Len(blocks) = 1 /\ n >= 4
     /\ err[1] = ToString(Len(h.rules)) /\ err[2] = ToString(Len(s.word))
     /\ CASE what = "parse" -> \E d \in G : /\ Shows(Tree(f, d), ws, blocks[1])
                                           /\ IF Free(e, s) THEN /\ Below(G, d.e) = {}
                                                                 /\ LET b == Cardinality(Below(D, d.e)) IN \E k \in (b + 1)..(b + 1 + Cardinality(AtE(D, d.e) \ G)) : counted(k) /\ (e.cand = -1 \/ k <= e.cand)
                                              ELSE TRUE
          [] what = "fallback" -> /\ Falls(f, IF Free(e, s) THEN Best(D) ELSE D, ws, blocks[1])
                                  /\ Free(e, s) => IF e.cand = -1 \/ e.cand >= Cardinality(D) THEN G = {} /\ counted(Cardinality(D))
                                                   ELSE counted(e.cand) /\ IsEnumeration(f, D, e.cand, <<>>)
          [] what = "noparse" -> counted(0) /\ blocks[1] = NoParse(ws, Tags(e, s)) /\ (Free(e, s) => (D = {} \/ e.cand = 0))
          [] OTHER -> FALSE
RECURSIVE Session(_, _, _, _)
Session(e, k, out, err) ==
  IF k > Len(e.lines) THEN out = <<>> /\ err = <<>>
  ELSE LET b == Blocks(out, Id(e, k)) IN
       IF e.debug THEN err # <<>> /\ DebugOk(e, e.lines[k], b.blocks, err[1]) /\ Session(e, k + 1, b.rest, Tail(err))
       ELSE SentenceOk(e, e.lines[k], b.blocks) /\ Session(e, k + 1, b.rest, err)
\* mcfg: blocks are separated from what follows by nothing, sentences by an empty line; numbers from 1
RECURSIVE McfgSession(_, _, _)
McfgSession(e, k, out) ==
  IF k > Len(e.lines) THEN out = <<>>
  ELSE LET b == Blocks(out, k) s == e.lines[k] f == Masked(h, s.word) IN
       /\ AreBest(f, Cands(s), IF e.k = -1 THEN 1 ELSE e.k, -1, Spelled(s.word), b.blocks)
       /\ b.rest # <<>> /\ b.rest[1] = <<"">> /\ McfgSession(e, k + 1, Tail(b.rest))
Step(e) ==
  \/ e.op = "extract" /\ e.rc = 0 /\ made' = TRUE /\ h' = h
  \/ e.op = "parse" /\ made /\ (e.rc = 0 /\ Session(e, 1, e.out, e.err)) = TRUE /\ UNCHANGED vars
  \/ e.op = "mcfg" /\ (e.rc = 0 /\ McfgSession(e, 1, e.out)) = TRUE /\ UNCHANGED vars
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
