SPECIFICATION RSpec
CONSTANTS
  Exps = {1}
  Codes = {"A", "B"}
  Params = {0, 1, 11}
  Sizes = {1}
  Counts = {1, 2}
  Values = {1}
  MaxBatch = 0
VIEW View
INVARIANTS TypeOK UniqueKeys
PROPERTIES ResolveExact PutResolvable
CHECK_DEADLOCK FALSE
