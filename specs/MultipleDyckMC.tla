----------------------------- MODULE MultipleDyckMC -----------------------------
(* Every run of the automaton on every word: an accepting run exists exactly for the words of the language. *)
EXTENDS MultipleDyck
CONSTANTS MaxLen, Syms, Sorts
VARIABLES word, cells, sort
vars == <<tree, at, word, cells, sort>>
Partitions == {<<{1}, {2}, {3}>>, <<{1, 2}, {3}>>, <<{1, 2, 3}>>, <<{1, 3}>>, <<>>, <<{2, 3}, {}, {1}>>}
SortFuns == {<<>>} \cup [Syms -> Sorts]
Init == AInit /\ word = <<>> /\ cells \in Partitions /\ sort \in SortFuns
Step == /\ Len(word) < MaxLen
        /\ \E x \in Syms : \/ Open(x, cells, sort) /\ word' = Append(word, <<"o", x>>)
                           \/ Close(x) /\ word' = Append(word, <<"c", x>>)
        /\ UNCHANGED <<cells, sort>>
Next == Step
Spec == Init /\ [][Next]_vars
\* soundness: accepted words belong to the language
Sound == Accepting => Member(word, cells, sort)
\* completeness: TLC collects the runs of the automaton as sets of configurations, per word
RECURSIVE Runs(_, _, _, _)
SuccOpen(cf, x, p, q) ==
  UNION {LET kids == {b \in DOMAIN cf.t : Len(b) = Len(cf.a) + 1 /\ SubSeq(b, 1, Len(cf.a)) = cf.a}
             new(k) == [t |-> (Append(cf.a, k) :> [open |-> x, missing |-> cell \ {x}]) @@ cf.t, a |-> Append(cf.a, k)]
             old(b) == IF cf.t[b].open = 0 /\ x \in cf.t[b].missing THEN {[t |-> [cf.t EXCEPT ![b] = [open |-> x, missing |-> @.missing \ {x}]], a |-> b]} ELSE {}
         IN IF q = <<>> THEN {new(Cardinality(kids))} \cup UNION {old(b) : b \in kids}
            ELSE IF Append(cf.a, q[x]) \in DOMAIN cf.t THEN old(Append(cf.a, q[x])) ELSE {new(q[x])}
         : cell \in CellsWith(p, x)}
SuccClose(cf, x) == IF cf.a # <<>> /\ cf.t[cf.a].open = x
                    THEN {[t |-> [cf.t EXCEPT ![cf.a].open = 0], a |-> SubSeq(cf.a, 1, Len(cf.a) - 1)]} ELSE {}
Runs(cfs, w, p, q) == IF w = <<>> THEN cfs
                      ELSE Runs(UNION {IF Head(w)[1] = "o" THEN SuccOpen(cf, Head(w)[2], p, q) ELSE SuccClose(cf, Head(w)[2]) : cf \in cfs}, Tail(w), p, q)
Accepts(w, p, q) == \E cf \in Runs({[t |-> (<<>> :> Root), a |-> <<>>]}, w, p, q) : cf.a = <<>> /\ \A b \in DOMAIN cf.t : cf.t[b] = Root
Complete == Member(word, cells, sort) => Accepts(word, cells, sort)
Bal(n) == {w \in [1..n -> {"o", "c"} \X Syms] : Forest(w)[1]}
\* also for words on which the automaton has no run
CompleteAll == \A n \in {0, 2, 4} : \A w \in Bal(n) : \A p \in Partitions : \A q \in {<<>>, [x \in Syms |-> 1], [x \in Syms |-> x]} : Member(w, p, q) = Accepts(w, p, q)
ASSUME CompleteAll
\* the sorted language is a part of the language
SortedIsPart == Member(word, cells, sort) => Member(word, cells, <<>>)
\* with single-symbol cells the language is the Dyck language
Singles == cells = <<{1}, {2}, {3}>> /\ sort = <<>> => (Member(word, cells, sort) = Forest(word)[1])
=============================================================================
