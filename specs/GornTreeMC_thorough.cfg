SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 5
INVARIANTS Total PrefixFirst Ordered
PROPERTY Kept
