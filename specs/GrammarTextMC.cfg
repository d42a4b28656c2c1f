SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"cfg", "pmcfg"}
  MaxRules = 1
  Rich = FALSE
INVARIANTS FoundAll Agrees RoundTrip CutFails
