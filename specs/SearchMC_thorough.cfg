SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Nodes = {0, 1, 2}
  MaxYields = 6
INVARIANTS OnlyReachable Once Complete Ends Layers BestFirst
