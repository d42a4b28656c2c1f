SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Prios = {0, 1, 2}
  Kinds <- MCKinds
  MaxOps = 6
INVARIANTS Conservation Bounded EvictsWorst PopsBest PopsInOrder OnlyBeamRefuses KeepsBest
