SPECIFICATION Spec
CONSTANTS
  Devices = {1, 2}
  Values = {1, 2}
  Leak = "none"
  Steps = 3
  Some = {"encrypt", "sign"}
INVARIANTS NoConflict AsAlone
CHECK_DEADLOCK FALSE
