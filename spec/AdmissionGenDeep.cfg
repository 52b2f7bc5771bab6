SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Sizes = {1, 2, 5, 8, 13}
