SPECIFICATION Spec
CONSTANTS
  Elems = {0, 1, 2, 3}
  MaxLen = 5
INVARIANTS RoundTrip DamageRefused
CHECK_DEADLOCK FALSE
