SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Verdict Bracket NoWatch
PROPERTIES Ends
CONSTANTS
  PathForms = {"none", "dir", "missing"}
  UnitNames = {"-s"}
  Numbers = {1}
  HelpForms = {"", "-h"}
  MaxOps = 2
  Faults = {"", "start", "later"}
  Names = {"a", "b"}
  GEN = FALSE
