SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Invariance Covered
CHECK_DEADLOCK FALSE
