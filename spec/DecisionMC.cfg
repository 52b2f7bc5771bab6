SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxV = 2
INVARIANTS PInUnit PMonotone CvInRange CvMonotone Nested SizeBound
CHECK_DEADLOCK FALSE
