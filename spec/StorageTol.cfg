SPECIFICATION Spec
CONSTANTS
  Exps = {1}
  Codes = {"A"}
  Params = {0}
  Sizes = {1, 3, 4}
  Counts = {1, 2}
  Values = {1, 2}
  MaxBatch = 1
VIEW View
INVARIANTS TypeOK UniqueKeys
PROPERTIES LookupExact CvIsMaximal OnlyWritersWrite BatchInvisible FailureHarmless
CHECK_DEADLOCK FALSE
