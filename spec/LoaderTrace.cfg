SPECIFICATION TraceSpec
CONSTANTS
  Recs0 = {}
  Codes0 = {"A", "B", "a", "AB"}
  Sizes0 = {9, 10, 12}
  Tols0 = {0, 1, 3}
  MaxCodes = 4
CHECK_DEADLOCK FALSE
