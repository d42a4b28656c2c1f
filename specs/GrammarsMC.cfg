CONSTANTS MaxRules = 3
 Depth = 3
 Pool = "all"
SPECIFICATION Spec
INVARIANTS ConversionOK LcfrsStays Classes CfgOK
CHECK_DEADLOCK FALSE
