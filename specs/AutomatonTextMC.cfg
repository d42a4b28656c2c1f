SPECIFICATION MCSpec
CONSTANTS Kinds = {"tsa", "fsa"}  MaxTrs = 1  Rich = FALSE  AllForms = FALSE
INVARIANTS FoundAll Agrees Needed RoundTrip CutFails
CHECK_DEADLOCK FALSE
