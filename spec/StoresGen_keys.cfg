SPECIFICATION GenSpec
CONSTANTS
  MaxArchived = 2
  MaxChains = 2
  MaxKeys = 2
  MaxStates = 2
  Kind = "keys"
  NS = 1
  Keys = {"x1", "x2"}
  Vals = {"v1", "v2"}
  Handles = {"h1"}
  MaxLen = 4
VIEW State
CHECK_DEADLOCK FALSE
