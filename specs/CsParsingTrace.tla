---------------------------- MODULE CsParsingTrace ----------------------------
EXTENDS CsParsing, TraceBase
VARIABLES h, g, cached     \* the grammar; its rules that are useful for the last word; the candidates of the last word
vars == <<h, g, cached>>
TInit == TraceInit /\ h = [rules |-> Case.rules, init |-> Case.init] /\ g = h /\ cached = [word |-> <<>>, m |-> -2, T |-> <<>>, D |-> {}]
AsTree(o) == {<<o[k][1], o[k][2]>> : k \in 1..Len(o)}
Clean(o) == Cardinality({o[k][1] : k \in 1..Len(o)}) = Len(o)
BIG == 1000000
Cached(e) == IF e.word = cached.word /\ e.m = cached.m THEN cached
             ELSE LET T == Table(Masked(h, e.word), e.word, IF e.m = -1 THEN BIG ELSE e.m) IN [word |-> e.word, m |-> e.m, T |-> T, D |-> Top(h, e.word, T)]
\* e.m: an exponent up to which there are as many candidates as are looked at; -1: there are finitely many, take all
Known(e, D) == e.m = -1 \/ (e.cand # -1 /\ e.cand <= Cardinality(D)) \/ e.all
Free(e) == IF e.beam = -1 /\ e.delta = -1 THEN TRUE ELSE IF e.m # -1 THEN FALSE ELSE Roomy(g', e.word, cached'.T, e.beam, e.delta)
\* a fallback of one of the best candidates that are left
Falls(e, D, fall) == IF Free(e) THEN (IF D = {} THEN fall = <<>> ELSE Len(fall) = 1 /\ Clean(fall[1]) /\ IsFallback(g', AsTree(fall[1]), Best(D)))
                     ELSE fall = <<>> \/ (Len(fall) = 1 /\ Clean(fall[1]) /\ IF e.m = -1 THEN IsFallback(g', AsTree(fall[1]), D) ELSE FormsTree(AsTree(fall[1])))
ParseOk(e, D) ==
  LET out == [k \in 1..Len(e.out) |-> AsTree(e.out[k])]
      lim == Len(out) = e.lim
  IN /\ \A k \in 1..Len(e.out) : Clean(e.out[k])
     /\ e.end = ~lim
     /\ IF Free(e)
        THEN /\ Known(e, D)
             /\ IF e.end THEN IsEnumeration(g', D, e.cand, out)
                ELSE \/ out = <<>>
                     \/ IsFirst(g', D, out) /\ (e.cand = -1 \/ Cardinality(Below(D, TreeExp(out[Len(out)]))) < e.cand)
        ELSE /\ AreDerivations(h, e.word, e.cand, out)
             /\ e.beam # -1 => WithinBeam(out, e.beam)
     /\ Falls(e, D, e.fall)
DebugOk(e, D) ==
  LET t == AsTree(e.tree) G == Good(g', D) IN
  /\ e.nrules = Len(h.rules) /\ e.len = Len(e.word)
  /\ CASE e.res = "parse" -> /\ Clean(e.tree) /\ IsDerivation(h, e.word, t)
                             /\ e.cand = -1 \/ e.n <= e.cand
                             /\ Free(e) => LET x == TreeExp(t) b == Cardinality(Below(D, x))
                                           IN Below(G, x) = {} /\ e.n \in (b + 1)..(b + 1 + Cardinality(AtE(D, x) \ G))
       [] e.res = "fallback" -> /\ Clean(e.tree) /\ e.n >= 1 /\ (e.cand = -1 \/ e.n <= e.cand)
                                /\ IF Free(e) THEN /\ IsFallback(g', t, Best(D))
                                                   /\ IF e.cand = -1 \/ e.cand >= Cardinality(D) THEN G = {} /\ e.n = Cardinality(D)
                                                      ELSE e.n = e.cand /\ LET x == Nth(D, e.cand) IN Below(G, x) = {} /\ Cardinality(AtE(D, x) \ G) >= e.cand - Cardinality(Below(D, x))
                                   ELSE IF e.m = -1 THEN IsFallback(g', t, D) /\ e.n <= Cardinality(D) ELSE FormsTree(t)
       [] e.res = "noparse" -> e.tree = <<>> /\ (Free(e) => (D = {} \/ e.cand = 0))
Step(e) ==
  \/ /\ e.op = "reload" /\ UNCHANGED vars
  \/ /\ e.op = "parse" /\ cached' = Cached(e) /\ g' = Masked(h, e.word) /\ h' = h
     /\ ParseOk(e, cached'.D) = TRUE
  \/ /\ e.op = "debug" /\ cached' = Cached(e) /\ g' = Masked(h, e.word) /\ h' = h
     /\ DebugOk(e, cached'.D) = TRUE
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
