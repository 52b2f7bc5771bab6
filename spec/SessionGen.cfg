SPECIFICATION GSpec
CONSTANTS Configs = {1, 2, 3}
 Contents = {1, 2, 3, 4}
 Orders = {0, 1, 2, 3, 4}
 Containers = {"list", "array", "tuple", "readonly", "strided", "numbers", "integers", "narrow", "unsigned"}
 Val <- V2
 Depth = 36
INVARIANT Emit
CHECK_DEADLOCK FALSE
