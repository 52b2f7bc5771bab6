SPECIFICATION Spec
CONSTANTS
  Modules = {"package", "statistics", "utils.statistic", "goodness_of_fit", "utils.generator", "generators", "utils.distribution", "api"}
  Queries = {"criteria", "generator", "descriptor"}
  MaxCalls = 4
  OwnFamilies = {"gamma", "rice"}
  OwnCodes = {"USER1"}
INVARIANT AnswersConstant
CHECK_DEADLOCK FALSE
