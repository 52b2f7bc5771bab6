SPECIFICATION GSpec
CONSTANTS
  Exps = {1, 2}
  Codes = {"KS_NORMALITY_GOODNESS_OF_FIT", "ks_normality_goodness_of_fit", "KS%NORMALITY_GOODNESS_OF_FIT", "AD_NORMALITY"}
  Params = {0, 1, 2, 3, 4, 5, 6}
  Sizes = {9, 10, 11, 30}
  Counts = {1, 9, 10, 1000}
  Values = {1, 2, 3, 4, 5, 6}
  MaxBatch = 4
  Depth = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
