SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  Grid = 10
INVARIANTS InUnit NotBelowRaw Monotone TiesEqual Order Single
CHECK_DEADLOCK FALSE
