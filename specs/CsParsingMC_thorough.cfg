SPECIFICATION Spec
CONSTANTS NRules = 4  NWord = 4  Cands = {99, 0, 1, 2}  Prune = TRUE  Ties = 2
INVARIANTS TableIs Masking Derived Theorem Judged NoMore FallbackIs Ordered
CHECK_DEADLOCK FALSE
