SPECIFICATION Spec
CONSTANTS G = 10
 MaxN = 6
INVARIANTS Suprema Integrals Reflection Rotation ZhangSigns
CHECK_DEADLOCK FALSE
