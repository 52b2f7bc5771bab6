SPECIFICATION Spec
CONSTANTS
  Good = {"file", "memory"}
  Hopeless = {"badscheme"}
  Vals = {1, 2}
  MaxSteps = 7
PROPERTIES NeverLosesContent OnlyPutAdds NeverHalfOpen
CHECK_DEADLOCK FALSE
