SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Conserved Together Told Quiet
PROPERTIES Final
CONSTANTS
  N = 2
  MaxCalls = 6
  Bursts = {1, 2}
  Queued = TRUE
  Hows = {"close", "drop", "leave"}
  GEN = FALSE
