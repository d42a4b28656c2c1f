SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Elems = {1, 2, 3, 4}
  Weights = {0, 1, 2}
  MaxOps = 9
INVARIANTS Once Agree Unique Again SortedOk
PROPERTY Descending
