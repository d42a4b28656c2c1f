CONSTANTS Nts = {1, 2}
 Weights = {0, 1}
 Vars = {0}
 MaxTail = 1
 MaxComps = 2
 MaxLen = 1
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
