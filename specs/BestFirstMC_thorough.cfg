SPECIFICATION Spec
CONSTANTS NTrs = 3  NWord = 3  Beams = {0, 1, 2, 3}  Kinds = {"fsa", "pda", "tsa"}  MinWeight = 65536
INVARIANTS Ordered NoBetter Once Sound Complete SoFar
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
