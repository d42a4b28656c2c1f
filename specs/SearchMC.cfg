SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Nodes = {0, 1, 2}
  MaxYields = 4
INVARIANTS OnlyReachable Once Complete Ends Layers BestFirst
