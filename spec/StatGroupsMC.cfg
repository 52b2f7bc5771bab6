SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Invariance Covered
CHECK_DEADLOCK FALSE
