CONSTANTS Vals = {0, 1}
 Nums = {0, 2}
 MaxSteps = 5
SPECIFICATION Spec
INVARIANTS Closed Local BackAndForth PushNextIsFirst UpsAll ReplaceInverse
CHECK_DEADLOCK FALSE
