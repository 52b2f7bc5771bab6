SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 2
 Top = 4
 Fams <- All20
INVARIANTS Maximal Answers Symmetric Equivariant
