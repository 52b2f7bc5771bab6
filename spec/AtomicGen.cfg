SPECIFICATION ASpec
CONSTANTS
  Exps = {1}
  Codes = {"A", "B"}
  Params = {0}
  Sizes = {10}
  Counts = {5}
  Values = {1, 3}
  MaxBatch = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
