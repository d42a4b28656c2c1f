CONSTANTS MaxNodes = 5
 Faulty = TRUE
SPECIFICATION Spec
INVARIANTS ValueInv RefuseInv DefInv SepInv NegraInv
CHECK_DEADLOCK FALSE
