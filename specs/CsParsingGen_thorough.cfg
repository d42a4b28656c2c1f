SPECIFICATION GenSpec
CONSTANTS NRules = 4  NWord = 4
CHECK_DEADLOCK FALSE
