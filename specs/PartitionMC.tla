----------------------------- MODULE PartitionMC -----------------------------
EXTENDS Partition
CONSTANTS Symbols, MaxCells
VARIABLES cells   \* the list of cells given so far
MCInit == PInit /\ cells = <<>>
MCNext == Len(cells) < MaxCells /\ \E S \in SUBSET Symbols : AddCell(S) /\ cells' = Append(cells, S)
MCSpec == MCInit /\ [][MCNext]_<<cell, ok, cells>>
ExactlyIfDisjoint == ok <=> Disjoint(cells)
IsPartition == ok => /\ DOMAIN cell = UNION {cells[i] : i \in 1..Len(cells)}
                     /\ \A x \in DOMAIN cell : x \in cell[x] /\ \E i \in 1..Len(cells) : cells[i] = cell[x]
                     /\ \A x, y \in DOMAIN cell : cell[x] = cell[y] \/ cell[x] \cap cell[y] = {}
\* the order of the cells does not matter, nor do empty ones
OrderFree == ok => Build(<<>>, cells) = cell /\ Table(cells) = cell /\
                   \A p \in {f \in [1..Len(cells) -> 1..Len(cells)] : \A i, j \in 1..Len(cells) : f[i] = f[j] => i = j} :
                       Build(<<>>, [i \in 1..Len(cells) |-> cells[p[i]]]) = cell
Rebuild == ok => \A Ss \in [1..Cardinality(CellsOf(cell)) -> CellsOf(cell)] :
                     {Ss[i] : i \in 1..Len(Ss)} = CellsOf(cell) => Disjoint(Ss) /\ Build(<<>>, Ss) = cell
Stays == [][~ok => ~ok']_<<cell, ok, cells>>
=============================================================================
