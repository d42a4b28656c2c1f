CONSTANTS Vals = {0, 1}
 Nums = {0, 2}
 MaxSteps = 5
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
