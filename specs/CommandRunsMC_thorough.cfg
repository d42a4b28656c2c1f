SPECIFICATION Spec
CONSTANTS
  NRules = 2
  NWord = 2
  NRuns = 2
INVARIANT BestPrinted
PROPERTY Kept
CHECK_DEADLOCK FALSE
