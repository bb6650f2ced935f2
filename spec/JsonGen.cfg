SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Careless
CONSTANTS
  MaxLen = 2
  GEN = FALSE
