SPECIFICATION Spec
CONSTANTS NTrs = 3  NRules = 2  NWord = 3  Depth = 14
INVARIANTS Disjoint OnlyFine NothingLost AllOfThem Ordered
CHECK_DEADLOCK FALSE
