SPECIFICATION Spec
CONSTANTS NRules = 4  NWord = 4  Height = 7
INVARIANTS Simulates BottomKept Complete
CHECK_DEADLOCK FALSE
