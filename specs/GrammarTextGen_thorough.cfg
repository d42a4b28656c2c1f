SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"cfg"}
  MaxRules = 1
  Rich = TRUE
