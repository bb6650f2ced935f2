SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Faithful Covered
CONSTANTS
  Names = {"a", "b"}
  Depth = 2
  MaxOps = 3
  MaxPre = 0
  Kinds = {"mkd", "mkf", "mod", "rm", "mv"}
  Outside = FALSE
  Gran = "batch"
  Startup = FALSE
  MaxBatch = 3
  MaxRefuse = 0
  MaxLoss = 0
  MaxBad = 0
  GEN = FALSE
