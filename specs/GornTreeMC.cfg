SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 3
INVARIANTS Total PrefixFirst Ordered
PROPERTY Kept
