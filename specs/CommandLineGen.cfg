SPECIFICATION GenSpec
CONSTANTS NRules = 3  NWord = 3
CHECK_DEADLOCK FALSE
