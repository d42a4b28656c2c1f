CONSTANTS MaxRules = 0
 Depth = 0
 Pool = "all"
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
