SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Symbols = {1, 2, 3, 4}
  MaxCells = 3
INVARIANTS ExactlyIfDisjoint IsPartition OrderFree Rebuild
PROPERTY Stays
