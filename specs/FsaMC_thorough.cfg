SPECIFICATION Spec
CONSTANTS NTrs = 4  NWord = 4  MaxLen = 5
INVARIANTS IsItem Complete
CHECK_DEADLOCK FALSE
