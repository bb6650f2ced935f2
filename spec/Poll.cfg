SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Faithful Agrees
PROPERTY Stops
CONSTANTS
  Names = {"a", "b"}
  Depth = 2
  MaxOps = 3
  MaxPre = 1
  Kinds = {"mkd", "mkf", "mod", "rm"}
  Outside = FALSE
  Gran = "scan"
  MaxScans = 3
  Closing = FALSE
  RootGoes = FALSE
  GEN = FALSE
