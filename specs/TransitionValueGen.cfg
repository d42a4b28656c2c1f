CONSTANTS Syms = {1, 2}
 Weights = {0, 1}
 MaxWord = 1
 MaxSide = 1
 Rounds = 1
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
