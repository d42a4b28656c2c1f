SPECIFICATION GenSpec
CONSTANTS Kinds = {"tsa", "fsa"}  MaxTrs = 1  Rich = FALSE  AllForms = FALSE

CHECK_DEADLOCK FALSE
