CONSTANTS MaxLen = 8
 Syms = {1, 2, 3}
 Sorts = {0, 1}
SPECIFICATION Spec
INVARIANTS Sound Complete SortedIsPart Singles
CHECK_DEADLOCK FALSE
