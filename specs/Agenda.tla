------------------------------- MODULE Agenda -------------------------------
(***************************************************************************)
(* The agendas of the crate `search`.  An agenda holds items; every item   *)
(* is a pair <<name, priority>>.  `box` is the sequence of held items in   *)
(* order of arrival.  The five disciplines differ in which item a pop may  *)
(* deliver and in what a push does to the contents:                        *)
(*   "lifo"    - the last arrival;                                         *)
(*   "fifo"    - the first arrival;                                        *)
(*   "heap"    - some item of greatest priority;                           *)
(*   "limited" - as "heap", but at most kind.cap items are held: a push    *)
(*               into a full agenda throws out an item of least priority   *)
(*               (possibly the new one);                                   *)
(*   "beam"    - as "heap", but a push is refused if its priority is less  *)
(*               than the greatest held priority times kind.beta.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kind,   \* [d |-> discipline, cap |-> Nat, beta |-> Int, mul |-> "add" | "mul"]
          box,    \* the items held, in order of arrival
          out     \* what the last action delivered, threw out or refused

Prio(x) == x[2]
Idx(s) == 1..Len(s)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IsMax(s, i) == \A j \in Idx(s) : Prio(s[j]) <= Prio(s[i])
IsMin(s, i) == \A j \in Idx(s) : Prio(s[j]) >= Prio(s[i])
MaxPrio(s) == Prio(s[CHOOSE i \in Idx(s) : IsMax(s, i)])
Times(m, a, b) == IF m = "mul" THEN a * b ELSE a + b

\* positions a pop or a peek may choose
Next_(s) == CASE kind.d = "lifo" -> {Len(s)} \cap Idx(s)
              [] kind.d = "fifo" -> {1} \cap Idx(s)
              [] OTHER           -> {i \in Idx(s) : IsMax(s, i)}

Accepts(s, x) == \/ kind.d # "beam"
                 \/ s = <<>>
                 \/ Prio(x) >= Times(kind.mul, MaxPrio(s), kind.beta)

\* the possible results of pushing x onto s, as records [s, out]
Pushed(s, x) ==
  IF ~Accepts(s, x) THEN {[s |-> s, out |-> <<"refused", x>>]}
  ELSE IF kind.d = "limited" /\ Len(s) >= kind.cap
       THEN LET t == Append(s, x)
            IN {[s |-> Without(t, i), out |-> <<"evicted", t[i]>>] : i \in {j \in Idx(t) : IsMin(t, j)}}
       ELSE {[s |-> Append(s, x), out |-> <<"kept", x>>]}

RECURSIVE PushedAll(_, _)
PushedAll(s, xs) == IF xs = <<>> THEN {s}
                    ELSE UNION {PushedAll(r.s, Tail(xs)) : r \in Pushed(s, Head(xs))}

Init(k, items) == kind = k /\ box = items /\ out = <<"new">>

Push(x) == /\ \E r \in Pushed(box, x) : box' = r.s /\ out' = r.out
           /\ UNCHANGED kind
Extend(xs) == /\ \E s \in PushedAll(box, xs) : box' = s
              /\ out' = <<"extended">>
              /\ UNCHANGED kind
Pop == /\ \/ box = <<>> /\ box' = <<>> /\ out' = <<"nothing">>
          \/ \E i \in Next_(box) : box' = Without(box, i) /\ out' = <<"popped", box[i]>>
       /\ UNCHANGED kind
Clear == box' = <<>> /\ out' = <<"cleared">> /\ UNCHANGED kind
Same == UNCHANGED <<kind, box>> /\ out' = <<"same">>
=============================================================================
