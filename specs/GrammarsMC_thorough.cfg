CONSTANTS MaxRules = 4
 Depth = 4
 Pool = "core"
SPECIFICATION Spec
INVARIANTS ConversionOK LcfrsStays Classes CfgOK
CHECK_DEADLOCK FALSE
