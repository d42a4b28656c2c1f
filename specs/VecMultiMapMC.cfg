SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxIdx = 2
  MaxOps = 4
INVARIANTS SameMap Shortest SizedOk
PROPERTIES OneList NeverShrinks
