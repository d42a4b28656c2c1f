CONSTANTS MaxClasses = 2
SPECIFICATION Spec
INVARIANTS ReadsBack Agrees Inverse OrderFree
CHECK_DEADLOCK FALSE
