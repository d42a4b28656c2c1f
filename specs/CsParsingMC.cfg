SPECIFICATION Spec
CONSTANTS NRules = 3  NWord = 3  Cands = {99, 0, 1, 2}  Prune = TRUE  Ties = 9
INVARIANTS TableIs Masking Derived Theorem Judged NoMore FallbackIs Ordered
CHECK_DEADLOCK FALSE
