SPECIFICATION Spec
CONSTANTS NTrs = 2  NRules = 2  NWord = 3  MaxLen = 7
INVARIANTS Follows Accepted Weights
CHECK_DEADLOCK FALSE
