SPECIFICATION Spec
INVARIANTS NamesAgree Calibrated NullIsLaw
CHECK_DEADLOCK FALSE
