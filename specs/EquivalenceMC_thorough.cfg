CONSTANTS MaxClasses = 3
SPECIFICATION Spec
INVARIANTS ReadsBack Agrees Inverse OrderFree
CHECK_DEADLOCK FALSE
