SPECIFICATION TraceSpec
CONSTANTS
  Exps = {}
  Codes = {}
  Params = {}
  Sizes = {}
  Counts = {}
  Values = {}
  MaxBatch = 0
INVARIANT UniqueKeys
CHECK_DEADLOCK FALSE
