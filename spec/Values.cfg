SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Reflexive Same Shallow
PROPERTIES Alone
CONSTANTS
  N = 3
  Paths = {1, 2}
  Effects = {0}
  Types = {0, 1}
  Times = {1, 2}
  MaxOps = 4
  GEN = FALSE
