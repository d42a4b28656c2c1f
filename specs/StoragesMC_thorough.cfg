CONSTANTS Vals = {0, 1}
 Nums = {0, 1, 3}
 MaxSteps = 6
SPECIFICATION Spec
INVARIANTS Closed Local BackAndForth PushNextIsFirst UpsAll ReplaceInverse
CHECK_DEADLOCK FALSE
