CONSTANTS Nts = {1, 2}
 Weights = {0, 1}
 Vars = {0}
 MaxTail = 1
 MaxComps = 1
 MaxLen = 1
SPECIFICATION Spec
INVARIANTS Holds Lookalike Order Renaming
CHECK_DEADLOCK FALSE
