SPECIFICATION GSpec
CONSTANTS
  Exps = {1, 2}
  Codes = {"KS_NORMALITY_GOODNESS_OF_FIT", "ks_normality_goodness_of_fit", "AD_NORMALITY", "KSE_EXPONENTIALITY_GOODNESS_OF_FIT"}
  Params = {0, 1, 2, 3, 4, 5, 11, 14}
  Sizes = {9, 10, 11, 30}
  Counts = {1, 10, 1000}
  Values = {1, 2, 3, 4, 5, 6, 7, 8}
  MaxBatch = 0
  Depth = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
