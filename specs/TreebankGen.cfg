CONSTANTS MaxLines = 0
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
