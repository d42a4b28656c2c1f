CONSTANTS MaxLen = 6
 Syms = {1, 2, 3}
 Sorts = {0, 1}
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
