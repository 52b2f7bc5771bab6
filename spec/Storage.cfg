SPECIFICATION Spec
CONSTANTS
  Exps = {1, 2}
  Codes = {"A", "B"}
  Params = {0}
  Sizes = {1}
  Counts = {1, 2}
  Values = {1}
  MaxBatch = 2
VIEW View
INVARIANTS TypeOK UniqueKeys
PROPERTIES LookupExact CvIsMaximal OnlyWritersWrite BatchInvisible FailureHarmless
CHECK_DEADLOCK FALSE
