-------------------------------- MODULE Dyck --------------------------------
(* Brackets are pairs <<"o", symbol>> and <<"c", symbol>>; the recogniser reads a word with a stack of open symbols. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES stack, dead
DInit == stack = <<>> /\ dead = FALSE
Read(x) == IF dead THEN UNCHANGED <<stack, dead>>
           ELSE IF x[1] = "o" THEN stack' = Append(stack, x[2]) /\ dead' = FALSE
           ELSE IF stack # <<>> /\ stack[Len(stack)] = x[2]
                THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ dead' = FALSE
                ELSE stack' = stack /\ dead' = TRUE
Accepting == ~dead /\ stack = <<>>
\* the same by deletion of adjacent matching pairs
RECURSIVE Reduces(_)
Reduces(w) == \/ w = <<>>
              \/ \E i \in 1..(Len(w) - 1) : /\ w[i][1] = "o" /\ w[i + 1][1] = "c" /\ w[i][2] = w[i + 1][2]
                                            /\ Reduces(SubSeq(w, 1, i - 1) \o SubSeq(w, i + 2, Len(w)))
\* the recogniser as a function
RECURSIVE Run(_, _)
Run(st, w) == IF w = <<>> THEN st = <<>>
              ELSE LET x == Head(w) IN
                   IF x[1] = "o" THEN Run(Append(st, x[2]), Tail(w))
                   ELSE st # <<>> /\ st[Len(st)] = x[2] /\ Run(SubSeq(st, 1, Len(st) - 1), Tail(w))
=============================================================================
