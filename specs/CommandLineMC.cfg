SPECIFICATION Spec
CONSTANTS NRules = 2  NWord = 3  K = 2  NLines = 2
INVARIANTS Answered InOrder Judged
CHECK_DEADLOCK FALSE
