CONSTANTS MaxLines = 2
SPECIFICATION Spec
INVARIANTS Found SumToOne CutFails DefaultLex
CHECK_DEADLOCK FALSE
