SPECIFICATION Spec
CONSTANTS NRules = 3  NWord = 3  Height = 8
INVARIANTS WellFormed WeightRight Complete
CHECK_DEADLOCK FALSE
