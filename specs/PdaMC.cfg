SPECIFICATION Spec
CONSTANTS NRules = 3  NWord = 3  Height = 6
INVARIANTS Simulates BottomKept Complete
CHECK_DEADLOCK FALSE
