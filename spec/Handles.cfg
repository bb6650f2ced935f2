SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Once
PROPERTIES Final
CONSTANTS
  N = 3
  MaxCalls = 7
  Kinds = {"ok", "missing", "file", "broken"}
  GEN = FALSE
