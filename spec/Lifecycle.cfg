SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Bracketed NoneAfterClose Truth
PROPERTIES Answered FewMore
CONSTANTS
  MaxOps = 2
  MaxQ = 2
  Endless = FALSE
  MaxClose = 2
  MaxInt = 0
  Dir = TRUE
  GEN = FALSE
