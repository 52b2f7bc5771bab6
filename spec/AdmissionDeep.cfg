SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Grid <- G
 MaxLen = 3
INVARIANTS TypeOK Symmetric Inherited NeverNumber Affine Beta01 Parameters
