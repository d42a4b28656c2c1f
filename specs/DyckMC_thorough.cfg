SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Symbols = {1, 2}
  MaxLen = 8
INVARIANTS AcceptsBalanced Prefixes
PROPERTY NoWayBack
