SPECIFICATION Spec
CONSTANT N = 8
CHECK_DEADLOCK FALSE
