SPECIFICATION Spec
CONSTANTS G = 8
 MaxN = 8
 Radii = {0, 1, 2, 3, 4, 7}
INVARIANT Equal
CHECK_DEADLOCK FALSE
