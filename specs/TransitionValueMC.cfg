CONSTANTS Syms = {1, 2}
 Weights = {0, 1}
 MaxWord = 1
 MaxSide = 1
 Rounds = 2
SPECIFICATION Spec
INVARIANTS Admitted Returns Faithful Commutes Order Merging
CHECK_DEADLOCK FALSE
