------------------------------ MODULE BestFirstMC ------------------------------
(***************************************************************************)
(* Recognition as it is organised: an agenda of at most b items, of which  *)
(* a best one is taken next; its successors are put on the agenda one by   *)
(* one, and whenever there are more than b, a worst one is dropped.        *)
(* b = 0 stands for an agenda without bound.                               *)
(***************************************************************************)
EXTENDS AutomataPool
CONSTANTS NTrs, NWord, Beams, Kinds, MinWeight
VARIABLES au, word, b, agenda, todo, out, drops
vars == <<au, word, b, agenda, todo, out, drops>>
Init == /\ \/ "fsa" \in Kinds /\ au \in Fsas(NTrs)
           \/ "pda" \in Kinds /\ au \in Pdas(NTrs)
           \/ "tsa" \in Kinds /\ au \in Tsas(NTrs + 1)
        /\ word \in WordsUpTo({1, 2}, NWord) /\ b \in Beams
        /\ agenda = {Start(au)} /\ todo = {} /\ out = <<>> /\ drops = 0
Best(x) == x \in agenda /\ \A y \in agenda : Scaled(y.w) <= Scaled(x.w)
Worst(S, x) == x \in S /\ \A y \in S : Scaled(x.w) <= Scaled(y.w)
Take == /\ todo = {} /\ \E x \in agenda :
            /\ Best(x)
            /\ agenda' = agenda \ {x}
            /\ todo' = Steps(au, word, x)
            /\ out' = IF Accepts(au, word, x) THEN Append(out, x) ELSE out
       /\ UNCHANGED <<au, word, b, drops>>
Put == \E x \in todo :
          /\ todo' = todo \ {x}
          /\ LET S == agenda \cup {x} IN
             IF b = 0 \/ Cardinality(S) <= b THEN agenda' = S /\ UNCHANGED drops
             ELSE \E y \in S : Worst(S, y) /\ agenda' = S \ {y} /\ drops' = 1
          /\ UNCHANGED <<au, word, b, out>>
Next == Take \/ Put
Spec == Init /\ [][Next]_vars
\* searches may be infinite: those items are not followed any further
Bound == \A x \in agenda \cup todo : Scaled(x.w) >= MinWeight

Ordered == \A k \in 1..(Len(out) - 1) : Scaled(out[k + 1].w) <= Scaled(out[k].w)
NoBetter == out # <<>> => \A x \in agenda \cup todo : Scaled(x.w) <= Scaled(out[Len(out)].w)
Once == Cardinality(Rng(out)) = Len(out)
Sound == \A k \in 1..Len(out) :
           LET RECURSIVE From(_, _) From(x, r) == IF r = <<>> THEN {x} ELSE UNION {From(y, Tail(r)) : y \in {z \in Steps(au, word, x) : z.r = Append(x.r, Head(r))}}
           IN From(Start(au), out[k].r) = {out[k]} /\ Accepts(au, word, out[k])
\* nothing dropped: all of them
Complete == agenda = {} /\ todo = {} /\ drops = 0 => Rng(out) = Runs(au, word, 0)
\* what is above everything still pending has been found
SoFar == drops = 0 /\ todo = {} /\ agenda # {} =>
           LET m == Scaled((CHOOSE x \in agenda : Best(x)).w)
           IN {x \in Runs(au, word, m) : Scaled(x.w) > m} \subseteq Rng(out)
=============================================================================
