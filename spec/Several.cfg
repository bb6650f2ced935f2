SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Account
PROPERTIES Isolated
CONSTANTS
  N = 2
  MaxOps = 3
  MaxBatch = 2
  MaxEnd = 1
  GEN = FALSE
