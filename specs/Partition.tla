------------------------------ MODULE Partition ------------------------------
(***************************************************************************)
(* A partition is built cell by cell: `cell` maps each symbol seen so far  *)
(* to the cell that contains it; a cell that meets a known symbol makes    *)
(* the construction fail for good.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cell,   \* symbol |-> its cell
          ok      \* FALSE once two cells overlapped
PInit == cell = <<>> /\ ok = TRUE
Merge(f, S) == [x \in DOMAIN f \cup S |-> IF x \in DOMAIN f THEN f[x] ELSE S]
AddCell(S) == IF ok /\ S \cap DOMAIN cell = {}
              THEN cell' = Merge(cell, S) /\ ok' = TRUE
              ELSE cell' = cell /\ ok' = FALSE
RECURSIVE Build(_, _)
Build(f, Ss) == IF Ss = <<>> THEN f ELSE Build(Merge(f, Head(Ss)), Tail(Ss))
\* the same at once, for disjoint cells
Table(Ss) == [x \in UNION {Ss[i] : i \in 1..Len(Ss)} |-> Ss[CHOOSE i \in 1..Len(Ss) : x \in Ss[i]]]
Disjoint(Ss) == \A i, j \in 1..Len(Ss) : i # j => Ss[i] \cap Ss[j] = {}
CellsOf(f) == {f[x] : x \in DOMAIN f}
=============================================================================
