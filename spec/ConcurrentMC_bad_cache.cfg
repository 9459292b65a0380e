SPECIFICATION Spec
CONSTANTS
  Devices = {1, 2}
  Values = {1, 2}
  Leak = "cache"
  Steps = 1
  Some = {"encrypt", "sign"}
INVARIANTS NoConflict AsAlone
CHECK_DEADLOCK FALSE
