SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 3
 Top = 3
 Fams <- All20
INVARIANTS Maximal Answers Symmetric Equivariant
