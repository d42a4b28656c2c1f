CONSTANTS Syms = {1, 2}
 MaxWord = 2
 Stores = {0, 1}
 Weights = {0, 1}
 MaxQueue = 3
SPECIFICATION Spec
INVARIANTS Order TakenInOrder SortIsTake FactorsOk
CHECK_DEADLOCK FALSE
