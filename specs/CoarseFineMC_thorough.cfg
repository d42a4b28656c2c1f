SPECIFICATION Spec
CONSTANTS NTrs = 3  NRules = 2  NWord = 4  Depth = 16
INVARIANTS Disjoint OnlyFine NothingLost AllOfThem Ordered
CHECK_DEADLOCK FALSE
