------------------------------ MODULE Derivation ------------------------------
(***************************************************************************)
(* Derivation trees of PMCFG rules: functions from Gorn addresses          *)
(* (sequences of numbers from 0 on) to rules                               *)
(*   [head, tail, comp, w],  comp: sequence of components, a component:    *)
(*   sequence of <<"T", symbol>> and <<"V", i, j>>.                        *)
(* Their value, the separation of terminals, and the NEGRA export.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Child(a, i) == Append(a, i)
Parent(a) == SubSeq(a, 1, Len(a) - 1)
Last(a) == a[Len(a)]
Elems(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Items(r) == Flat(r.comp)
Vars(r) == {x \in Elems(Items(r)) : x[1] = "V"}
NumT(r) == Cardinality({k \in 1..Len(Items(r)) : Items(r)[k][1] = "T"})

--------------------------------------------------------------------------
\* value of a tree at an address, as a function
RECURSIVE Needed(_, _, _), Defined(_, _), CompVal(_, _, _)
\* every use of a component that component m needs can be met
Needed(t, a, m) == \A k \in 1..Len(t[a].comp[m]) :
   LET x == t[a].comp[m][k]
   IN x[1] = "V" => IF Child(a, x[2]) \notin DOMAIN t THEN FALSE
                    ELSE x[3] < Len(t[Child(a, x[2])].comp) /\ Needed(t, Child(a, x[2]), x[3] + 1)
\* the same for every component of every rule that is used at all
Defined(t, a) == \A x \in Vars(t[a]) :
   IF Child(a, x[2]) \notin DOMAIN t THEN FALSE
   ELSE x[3] < Len(t[Child(a, x[2])].comp) /\ Defined(t, Child(a, x[2]))
MustRefuse(t, a) == \E m \in 1..Len(t[a].comp) : ~Needed(t, a, m)
\* component m of the value: sequence of <<symbol, address of the rule it comes from>>
CompVal(t, a, m) ==
   LET c == t[a].comp[m]
   IN Flat([k \in 1..Len(c) |-> IF c[k][1] = "T" THEN <<<<c[k][2], a>>>> ELSE CompVal(t, Child(a, c[k][2]), c[k][3] + 1)])
Words(v) == [k \in 1..Len(v) |-> v[k][1]]
Val(t, a) == [m \in 1..Len(t[a].comp) |-> Words(CompVal(t, a, m))]

--------------------------------------------------------------------------
\* separation of terminals
OnlyVars(r) == NumT(r) = 0
OneTerminal(r) == NumT(r) = 1 /\ Len(Items(r)) = 1
NormalRule(r) == OnlyVars(r) \/ OneTerminal(r)
Normal(t) == \A a \in DOMAIN t : NormalRule(t[a])
Heads(t) == {t[a].head : a \in DOMAIN t}
Consistent(t) == \A a \in DOMAIN t : /\ {i \in 0..50 : Child(a, i) \in DOMAIN t} = 0..(Len(t[a].tail) - 1)
                                     /\ a = <<>> \/ Parent(a) \in DOMAIN t
                                     /\ \A i \in 1..Len(t[a].tail) : t[Child(a, i - 1)].head = t[a].tail[i]
\* is s a separation of t?
SepRule(t, s, a) ==
   LET r == t[a] q == s[a] n == Len(r.tail)
       new == {i \in n..(Len(q.tail) - 1) : TRUE}
   IN IF NormalRule(r) THEN q = r
      ELSE /\ q.head = r.head /\ q.w = r.w /\ OnlyVars(q)
           /\ Len(q.tail) >= n /\ SubSeq(q.tail, 1, n) = r.tail
           /\ Len(q.comp) = Len(r.comp)
           /\ \A m \in 1..Len(r.comp) :
                /\ Len(q.comp[m]) = Len(r.comp[m])
                /\ \A k \in 1..Len(r.comp[m]) :
                     LET x == r.comp[m][k] y == q.comp[m][k]
                     IN IF x[1] = "V" THEN y = x
                        ELSE y[1] = "V" /\ y[2] \in new /\ y[3] = 0
           \* the terminals are found again below the rule they come from
           /\ \A i \in new : IF Child(a, i) \notin DOMAIN s THEN FALSE
                             ELSE LET b == s[Child(a, i)]
                                  IN OneTerminal(b) /\ b.tail = <<>> /\ b.comp = <<<<Items(b)[1]>>>> /\ b.head \notin Heads(t) /\ q.tail[i + 1] = b.head
                                     /\ \A m \in 1..Len(r.comp) : \A k \in 1..Len(r.comp[m]) :
                                          LET x == r.comp[m][k] y == q.comp[m][k]
                                          IN (y[2] = i) => (x[1] = "T" /\ x[2] = b.comp[1][1][2])
IsSeparation(t, s) ==
   /\ DOMAIN t \subseteq DOMAIN s
   /\ \A a \in DOMAIN t : SepRule(t, s, a)
   /\ \A a \in DOMAIN s \ DOMAIN t : IF a = <<>> THEN FALSE
                                     ELSE Parent(a) \in DOMAIN t /\ Last(a) \in Len(t[Parent(a)].tail)..(Len(s[Parent(a)].tail) - 1)

\* a construction
RECURSIVE FirstOccs(_, _)
FirstOccs(items, acc) == IF items = <<>> THEN acc
                         ELSE FirstOccs(Tail(items), IF Head(items)[1] = "T" /\ Head(items)[2] \notin Elems(acc) THEN Append(acc, Head(items)[2]) ELSE acc)
Pos(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
RECURSIVE Fresh(_, _, _)
Fresh(x, h, used) == IF h \in used THEN Fresh(x, h \o x, used) ELSE h
Separate(t) ==
   LET split(a) == ~NormalRule(t[a])
       ts(a) == IF split(a) THEN FirstOccs(Items(t[a]), <<>>) ELSE <<>>
       n(a) == Len(t[a].tail)
       new == UNION {{<<a, k>> : k \in 1..Len(ts(a))} : a \in DOMAIN t}
       newaddr == {Child(p[1], n(p[1]) + p[2] - 1) : p \in new}
       rule(a) == IF ~split(a) THEN t[a]
                  ELSE [t[a] EXCEPT !.tail = @ \o [k \in 1..Len(ts(a)) |-> Fresh(ts(a)[k], ts(a)[k], Heads(t))],
                                    !.comp = [m \in 1..Len(@) |-> [k \in 1..Len(@[m]) |->
                                                IF @[m][k][1] = "V" THEN @[m][k] ELSE <<"V", n(a) + Pos(ts(a), @[m][k][2]) - 1, 0>>]]]
       leaf(b) == LET a == Parent(b) x == ts(a)[Last(b) - n(a) + 1]
                  IN [head |-> Fresh(x, x, Heads(t)), tail |-> <<>>, comp |-> <<<<<<"T", x>>>>>>, w |-> t[a].w]
   IN [b \in DOMAIN t \cup newaddr |-> IF b \in DOMAIN t THEN rule(b) ELSE leaf(b)]

--------------------------------------------------------------------------
\* NEGRA export: a line is [form, tag, par], form either <<"w", word>> or <<"#", number>>
Yield(t) == Flat([m \in 1..Len(t[<<>>].comp) |-> CompVal(t, <<>>, m)])
Exportable(t) == Normal(t) /\ Defined(t, <<>>) /\ ~OneTerminal(t[<<>>])
\* inner constituents below the root that dominate a word
Prefixes(a) == {SubSeq(a, 1, k) : k \in 1..(Len(a) - 1)}
Inner(t) == UNION {Prefixes(Yield(t)[k][2]) : k \in 1..Len(Yield(t))}
LineOf(ls, n) == CHOOSE k \in 1..Len(ls) : ls[k].form = <<"#", n>>
RECURSIVE Climb(_, _, _, _)
\* the numbers that the lines assign to the proper, nonempty prefixes of the address of a word
\* (the last element of nums is the number of the prefix of length k)
Climb(ls, a, k, nums) ==
   IF k = 0 THEN nums
   ELSE LET n == nums[k + 1]
        IN IF ~\E i \in 1..Len(ls) : ls[i].form = <<"#", n>> THEN [nums EXCEPT ![k] = -1]
           ELSE Climb(ls, a, k - 1, [nums EXCEPT ![k] = ls[LineOf(ls, n)].par])
\* nums[k + 1] is the number of SubSeq(a, 1, k); the root has 0
Numbers(ls, a, par) == LET n0 == [k \in 1..Len(a) |-> IF k = Len(a) THEN par ELSE -2]
                       IN Climb(ls, a, Len(a) - 1, n0)
IsNegra(t, words, ls) ==
   LET y == Yield(t) nw == Len(y) inner == Inner(t) m == Cardinality(inner)
   IN /\ Len(ls) = nw + m /\ Len(words) = nw
      \* word lines
      /\ \A i \in 1..nw : ls[i].form = <<"w", words[i]>> /\ ls[i].tag = t[y[i][2]].head
      \* numbers from 500 on, each once
      /\ {ls[nw + i].form : i \in 1..m} = {<<"#", 499 + i>> : i \in 1..m}
      \* following the parents leads through the constituents up to the root
      /\ LET num(i) == Numbers(ls, y[i][2], ls[i].par)
             pairs == UNION {{<<SubSeq(y[i][2], 1, k), num(i)[k + 1]>> : k \in 0..(Len(y[i][2]) - 1)} : i \in 1..nw}
         IN /\ \A p \in pairs : (p[1] = <<>>) = (p[2] = 0)
            /\ Cardinality(pairs) = Cardinality({p[1] : p \in pairs}) /\ Cardinality(pairs) = Cardinality({p[2] : p \in pairs})
            /\ \A p \in pairs : p[1] # <<>> => ls[LineOf(ls, p[2])].tag = t[p[1]].head
=============================================================================
