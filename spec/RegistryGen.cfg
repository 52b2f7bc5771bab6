SPECIFICATION GSpec
CONSTANTS
  Modules = {"package", "statistics", "utils.statistic", "goodness_of_fit", "utils.generator", "generators", "utils.distribution", "api"}
  Queries = {"criteria", "generator", "descriptor"}
  MaxCalls = 1000
  OwnFamilies = {"normal"}
  OwnCodes = {"USER"}
  Depth = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
