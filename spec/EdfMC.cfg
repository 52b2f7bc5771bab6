SPECIFICATION Spec
CONSTANTS G = 8
 MaxN = 5
INVARIANTS Suprema Integrals Reflection Rotation ZhangSigns
CHECK_DEADLOCK FALSE
