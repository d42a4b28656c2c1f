SPECIFICATION Spec
CONSTANTS NTrs = 3  NWord = 3  MaxLen = 4
INVARIANTS IsItem Complete
CHECK_DEADLOCK FALSE
