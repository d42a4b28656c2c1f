SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxIdx = 3
  MaxOps = 5
INVARIANTS SameMap Shortest SizedOk
PROPERTIES OneList NeverShrinks
