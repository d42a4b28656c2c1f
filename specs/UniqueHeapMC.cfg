SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Elems = {1, 2, 3}
  Weights = {0, 1, 2}
  MaxOps = 6
INVARIANTS Once Agree Unique Again SortedOk
PROPERTY Descending
