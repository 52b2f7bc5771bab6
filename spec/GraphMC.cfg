SPECIFICATION Spec
CONSTANTS G = 6
 MaxN = 6
 Radii = {0, 1, 2, 3, 4, 7}
INVARIANT Equal
CHECK_DEADLOCK FALSE
