SPECIFICATION Spec
CONSTANTS
  Devices = {1, 2, 3}
  Values = {1, 2}
  Leak = "none"
  Steps = 2
  Some = {"decrypt", "parse"}
INVARIANTS NoConflict AsAlone
CHECK_DEADLOCK FALSE
