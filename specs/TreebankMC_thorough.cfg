CONSTANTS MaxLines = 3
SPECIFICATION Spec
INVARIANTS Found SumToOne CutFails DefaultLex
CHECK_DEADLOCK FALSE
