SPECIFICATION GenSpec
CONSTANTS Kinds = {"tsa", "fsa"}  MaxTrs = 1  Rich = TRUE  AllForms = FALSE

CHECK_DEADLOCK FALSE
