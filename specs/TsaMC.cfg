SPECIFICATION Spec
CONSTANTS NRules = 2  NWord = 4  Height = 6
INVARIANTS WellFormed WeightRight Complete
CHECK_DEADLOCK FALSE
