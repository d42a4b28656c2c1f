------------------------------- MODULE Grammars -------------------------------
(***************************************************************************)
(* Lists of PMCFG rules [head, tail, comp, w] (comp: sequence of           *)
(* components, items <<"T", t>> and <<"V", i, j>>), their classes, their   *)
(* weighted languages up to a depth, and the conversions between them.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Elems(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Items(r) == Flat(r.comp)
IsVar(x) == x[1] = "V"
VarSeq(r) == SelectSeq(Items(r), IsVar)
Uses(r, i, j) == Cardinality({k \in 1..Len(VarSeq(r)) : VarSeq(r)[k] = <<"V", i, j>>})
Heads(rs) == {rs[k].head : k \in 1..Len(rs)}
Defined(rs, r) == Elems(r.tail) \subseteq Heads(rs)
ConsistentFan(rs) == \A k, m \in 1..Len(rs) : rs[k].head = rs[m].head => Len(rs[k].comp) = Len(rs[m].comp)
Fan(rs, a) == Len(rs[CHOOSE k \in 1..Len(rs) : rs[k].head = a].comp)
\* finite bags of the elements of a sequence
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])

--------------------------------------------------------------------------
\* classes of grammars
Range_(rs, r, x) == x[2] < Len(r.tail) /\ x[3] < Fan(rs, r.tail[x[2] + 1])
UsesEachOnce(rs, r) ==
   /\ \A k \in 1..Len(VarSeq(r)) : Range_(rs, r, VarSeq(r)[k])
   /\ \A i \in 1..Len(r.tail) : \A j \in 0..(Fan(rs, r.tail[i]) - 1) : Uses(r, i - 1, j) = 1
IsLcfrs(rs, init) ==
   /\ ConsistentFan(rs)
   /\ \A k \in 1..Len(rs) : Defined(rs, rs[k])
   /\ init \in Heads(rs)
   /\ Fan(rs, init) = 1
   /\ \A k \in 1..Len(rs) : UsesEachOnce(rs, rs[k])
LinearRule(r) == \A k, m \in 1..Len(VarSeq(r)) : VarSeq(r)[k] = VarSeq(r)[m] => k = m
IsMcfg(initials, rs) == Len(initials) = 1 /\ \A k \in 1..Len(rs) : LinearRule(rs[k])
NormalForm(rs) == \A k \in 1..Len(rs) :
   /\ \A m \in 1..Len(rs[k].comp) : rs[k].comp[m] # <<>>
   /\ \/ \A x \in Elems(Items(rs[k])) : IsVar(x)
      \/ Len(rs[k].comp) = 1 /\ Len(rs[k].comp[1]) = 1

--------------------------------------------------------------------------
\* derivations of depth <= d from a: sequence (read as a bag) of <<value, weight>>
Subst(r, vals) == [m \in 1..Len(r.comp) |->
   Flat([k \in 1..Len(r.comp[m]) |-> IF IsVar(r.comp[m][k]) THEN vals[r.comp[m][k][2] + 1][r.comp[m][k][3] + 1] ELSE <<r.comp[m][k][2]>>])]
RECURSIVE Tuples(_)
\* all choices of one element from each sequence, as a sequence
Tuples(ss) == IF ss = <<>> THEN <<<<>>>>
              ELSE LET rest == Tuples(Tail(ss))
                   IN Flat([k \in 1..Len(Head(ss)) |-> [m \in 1..Len(rest) |-> <<Head(ss)[k]>> \o rest[m]]])
RECURSIVE Prod(_)
Prod(ws) == IF ws = <<>> THEN 1 ELSE Head(ws) * Prod(Tail(ws))
RECURSIVE Derivs(_, _, _)
Derivs(rs, a, d) ==
   IF d = 0 THEN <<>>
   ELSE LET use == SelectSeq(rs, LAMBDA r : r.head = a)
        IN Flat([k \in 1..Len(use) |->
             LET r == use[k]
                 ch == Tuples([i \in 1..Len(r.tail) |-> Derivs(rs, r.tail[i], d - 1)])
             IN [m \in 1..Len(ch) |-> <<Subst(r, [i \in 1..Len(ch[m]) |-> ch[m][i][1]]), r.w * Prod([i \in 1..Len(ch[m]) |-> ch[m][i][2]])>>]])

--------------------------------------------------------------------------
\* conversion of an MCFG into an LCFRS: nonterminals are pairs <<a, set of deleted components>>
Kept(n, del) == SelectSeq([j \in 1..n |-> j - 1], LAMBDA j : j \notin del)
KeptComp(r, del) == LET js == Kept(Len(r.comp), del) IN [m \in 1..Len(js) |-> r.comp[js[m] + 1]]
UsedIn(comps, i) == {comps[m][k][3] : <<m, k>> \in {<<m, k>> \in (1..Len(comps)) \X (1..50) :
                          IF k > Len(comps[m]) THEN FALSE ELSE IsVar(comps[m][k]) /\ comps[m][k][2] = i}}
Deleted(rs, r, del, i) == (0..(Fan(rs, r.tail[i]) - 1)) \ UsedIn(KeptComp(r, del), i - 1)
ConvRule(rs, r, del) ==
   LET cs == KeptComp(r, del)
       gone == [i \in 1..Len(r.tail) |-> Deleted(rs, r, del, i)]
       Re(x) == IF IsVar(x) THEN <<"V", x[2], x[3] - Cardinality({j \in gone[x[2] + 1] : j < x[3]})>> ELSE x
   IN [head |-> <<r.head, del>>, tail |-> [i \in 1..Len(r.tail) |-> <<r.tail[i], gone[i]>>],
       comp |-> [m \in 1..Len(cs) |-> [k \in 1..Len(cs[m]) |-> Re(cs[m][k])]], w |-> r.w]
\* rules with a successor that no rule defines derive nothing
Usable(rs) == SelectSeq(rs, LAMBDA r : Defined(rs, r))
RulesOf(rs, st) == LET us == SelectSeq(Usable(rs), LAMBDA r : r.head = st[1]) IN [k \in 1..Len(us) |-> ConvRule(rs, us[k], st[2])]
NextStates(rs, st) == UNION {Elems(q.tail) : q \in Elems(RulesOf(rs, st))}
RECURSIVE ConvFrom(_, _, _, _)
ConvFrom(rs, todo, done, acc) == IF todo = {} THEN acc
   ELSE LET st == CHOOSE x \in todo : TRUE
            qs == RulesOf(rs, st)
        IN ConvFrom(rs, (todo \cup UNION {Elems(q.tail) : q \in Elems(qs)}) \ (done \cup {st}), done \cup {st}, acc \o qs)
Conv(rs, init) == ConvFrom(rs, {<<init, {}>>}, {}, <<>>)

--------------------------------------------------------------------------
\* conversion of a PMCFG with one component per rule into a CFG: items <<"T", t>> and <<"N", a>>
Convertible(rs) == \A k \in 1..Len(rs) : Len(rs[k].comp) = 1 /\ \A x \in Elems(VarSeq(rs[k])) : x[2] < Len(rs[k].tail) /\ x[3] = 0
CfgRule(r) == [head |-> r.head, w |-> r.w,
               comp |-> [k \in 1..Len(r.comp[1]) |-> IF IsVar(r.comp[1][k]) THEN <<"N", r.tail[r.comp[1][k][2] + 1]>> ELSE <<"T", r.comp[1][k][2]>>]]
CfgRules(rs) == [k \in 1..Len(rs) |-> CfgRule(rs[k])]
\* derivations of a CFG, as a PMCFG whose successors are the labels from the left
AsPmcfg(q) == LET RECURSIVE Go(_, _, _)
                  Go(k, tail, c) == IF k > Len(q.comp) THEN [head |-> q.head, tail |-> tail, comp |-> <<c>>, w |-> q.w]
                                    ELSE IF q.comp[k][1] = "N" THEN Go(k + 1, Append(tail, q.comp[k][2]), Append(c, <<"V", Len(tail), 0>>))
                                    ELSE Go(k + 1, tail, Append(c, q.comp[k]))
              IN Go(1, <<>>, <<>>)
=============================================================================
