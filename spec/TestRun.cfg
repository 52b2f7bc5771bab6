SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2}
  Size = 2
  Sims = 2
  LevelsX8 = {0, 1, 4}
INVARIANTS TypeOk LimitIsSimulated ResultTruthful ExtremeRejected InsideAccepted
PROPERTIES ObservedKept Ends
CHECK_DEADLOCK FALSE
