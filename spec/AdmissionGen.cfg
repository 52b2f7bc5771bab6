SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Sizes = {1, 8}
