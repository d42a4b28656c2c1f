SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Symbols = {1, 2}
  MaxLen = 6
INVARIANTS AcceptsBalanced Prefixes
PROPERTY NoWayBack
