SPECIFICATION Spec
CONSTANTS
  Recs0 <- FullRecs
  Codes0 = {"A", "B"}
  Sizes0 = {1, 2}
  Tols0 = {0, 1}
  MaxCodes = 2
VIEW View
INVARIANT UniqueKeys
PROPERTIES LoadTruthful LoadCopiesBest LoadIdempotent BulkTruthful FailureHarmless
CHECK_DEADLOCK FALSE
