CONSTANTS MaxClasses = 0
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
