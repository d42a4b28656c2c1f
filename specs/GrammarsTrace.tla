----------------------------- MODULE GrammarsTrace -----------------------------
EXTENDS Grammars, TraceBase
VARIABLES cur     \* 0: the given grammar, otherwise <<initial, rules>> of the grammar made from it
vars == <<cur>>
Given == Case.rules
TInit == TraceInit /\ cur = 0
\* names of converted nonterminals come with the deleted components as a list
AsName(x) == <<x[1], Elems(x[2])>>
AsRule(q) == [head |-> AsName(q.head), tail |-> [i \in 1..Len(q.tail) |-> AsName(q.tail[i])], comp |-> q.comp, w |-> q.w]
Legal == ConsistentFan(Given) /\ Case.kind = "conv" /\ \A k \in 1..Len(Given) : LinearRule(Given[k])
   /\ (Defined(Given, Given[k]) => \A m \in 1..Len(VarSeq(Given[k])) : Range_(Given, Given[k], VarSeq(Given[k])[m]))
Step(e) ==
  \* constructing an LCFRS; the parts are given back as they are
  \/ /\ e.op = "lcfrs"
     /\ (e.res = IF Len(Case.initial) # 1 THEN <<>> ELSE IF IsLcfrs(Given, Case.initial[1]) THEN <<[initial |-> Case.initial[1], rules |-> Given]>> ELSE <<>>) = TRUE
     /\ UNCHANGED cur
  \/ e.op = "normal" /\ (e.res = <<NormalForm(Given)>>) = TRUE /\ UNCHANGED cur
  \/ /\ e.op = "mcfg"
     /\ (e.res = IF IsMcfg(Case.initial, Given) THEN <<[initial |-> Case.initial[1], rules |-> Given]>> ELSE <<>>) = TRUE
     /\ UNCHANGED cur
  \* an MCFG as a PMCFG, an LCFRS as an MCFG, as a PMCFG
  \/ e.op = "same" /\ (e.res = [initial |-> <<Case.initial[1]>>, rules |-> Given]) = TRUE /\ UNCHANGED cur
  \/ /\ e.op = "conv"
     /\ LET rs == [k \in 1..Len(e.res.rules) |-> AsRule(e.res.rules[k])]
        IN /\ (AsName(e.res.initial) = <<Case.initial[1], {}>> /\ SameBag(rs, Conv(Given, Case.initial[1]))) = TRUE
           /\ cur' = rs
  \* the converted grammar's normal-form test
  \/ e.op = "convnormal" /\ (e.res = NormalForm(cur)) = TRUE /\ UNCHANGED cur
  \/ e.op = "cfg" /\ Convertible(Given) /\ (e.res = <<[initial |-> Case.initial, rules |-> CfgRules(Given)]>>) = TRUE /\ UNCHANGED cur
  \/ e.op = "cfg" /\ ~Convertible(Given) /\ e.res = <<>> /\ UNCHANGED cur
TNext == \/ More /\ Step(E) /\ Consume
         \/ More /\ ~ENABLED Step(E) /\ Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, c, l, bad>>
=============================================================================
