------------------------------ MODULE AgendaMC ------------------------------
(* Agenda by itself: every history of at most MaxOps operations over few priorities. *)
EXTENDS Agenda, TLC
CONSTANTS Prios, Kinds, MaxOps
VARIABLES n,     \* operations so far
          gone   \* what became of the items that are not held: item -> fate
vars == <<kind, box, out, n, gone>>

MCInit == /\ n = 0 /\ gone = <<>>
          /\ \E k \in Kinds : Init(k, <<>>)
Fresh == Cardinality({i \in 1..Len(box) : TRUE}) + Len(gone) + 1
MCNext == /\ n < MaxOps /\ n' = n + 1
          /\ \/ \E p \in Prios : Push(<<Fresh, p>>)
             \/ Pop
          /\ gone' = IF out'[1] \in {"popped", "evicted", "refused"} THEN Append(gone, out') ELSE gone
MCSpec == MCInit /\ [][MCNext]_vars

Held == {box[i] : i \in Idx(box)}
\* every item pushed is in exactly one place
Conservation == /\ Cardinality(Held) = Len(box)
                /\ \A i \in Idx(gone) : gone[i][2] \notin Held
                /\ \A i, j \in Idx(gone) : i # j => gone[i][2] # gone[j][2]
Bounded == kind.d = "limited" => Len(box) <= kind.cap
EvictsWorst == out[1] = "evicted" => \A x \in Held : Prio(out[2]) <= Prio(x)
PopsBest == out[1] = "popped" /\ kind.d \in {"heap", "limited", "beam"} => \A x \in Held : Prio(out[2]) >= Prio(x)
PopsInOrder == out[1] = "popped" => CASE kind.d = "lifo" -> \A x \in Held : x[1] < out[2][1]
                                      [] kind.d = "fifo" -> \A x \in Held : x[1] > out[2][1]
                                      [] OTHER -> TRUE
OnlyBeamRefuses == out[1] = "refused" => kind.d = "beam" /\ box # <<>> /\ Prio(out[2]) < Times(kind.mul, MaxPrio(box), kind.beta)
\* as long as nothing was popped, a limited agenda holds the kind.cap best of all items pushed
KeepsBest == kind.d = "limited" /\ (\A i \in Idx(gone) : gone[i][1] # "popped")
             => \A i \in Idx(gone), x \in Held : Prio(gone[i][2]) <= Prio(x)
MCKinds == {[d |-> d, cap |-> 0, beta |-> 0, mul |-> "add"] : d \in {"lifo", "fifo", "heap"}}
           \cup {[d |-> "limited", cap |-> m, beta |-> 0, mul |-> "add"] : m \in 0..2}
           \cup {[d |-> "beam", cap |-> 0, beta |-> b, mul |-> "add"] : b \in {-1, 0, 1}}
           \cup {[d |-> "beam", cap |-> 0, beta |-> b, mul |-> "mul"] : b \in {0, 1, 2}}
=============================================================================
