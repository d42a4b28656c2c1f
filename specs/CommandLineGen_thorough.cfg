SPECIFICATION GenSpec
CONSTANTS NRules = 4  NWord = 3
CHECK_DEADLOCK FALSE
