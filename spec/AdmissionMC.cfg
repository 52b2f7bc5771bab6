SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Grid <- G
 MaxLen = 2
INVARIANTS TypeOK Symmetric Inherited NeverNumber Affine Beta01 Parameters
