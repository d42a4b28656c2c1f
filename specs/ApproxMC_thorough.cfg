SPECIFICATION Spec
CONSTANTS NTrs = 3  NRules = 3  NWord = 3  MaxLen = 9
INVARIANTS Follows Accepted Weights
CHECK_DEADLOCK FALSE
