SPECIFICATION GSpec
CONSTANTS
  Kinds = {"normal", "exponential", "weibull", "uniform", "student", "gamma", "beta", "log_normal", "cauchy", "chi_2", "gompertz", "gumbel", "inv_gauss", "laplace", "lo_con_normal", "logistic", "mix_con_normal", "rice", "scale_con_normal", "trunc_normal", "tukey"}
  Rows = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  MaxObjs = 6
  DrawSizes = {1, 2, 3, 10, 60}
  MaxDrawn = 100000
  Depth = 34
INVARIANT Emit
CHECK_DEADLOCK FALSE
