SPECIFICATION Spec
CONSTANTS
  Families = {"normal", "exponential", "weibull", "uniform", "student", "gamma", "beta", "log_normal", "cauchy", "chi_2", "gompertz", "gumbel", "inv_gauss", "laplace", "lo_con_normal", "logistic", "mix_con_normal", "rice", "scale_con_normal", "trunc_normal", "tukey"}
  Rows = {0, 1, 2}
  Resolvers = {1, 2, 3}
  Codes = {"STUB", "OTHER"}
  Sizes = {1, 2, 5, 8, 13, 0}
  Depth = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
