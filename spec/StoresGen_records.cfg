SPECIFICATION GenSpec
CONSTANTS
  MaxArchived = 2
  MaxChains = 2
  MaxKeys = 2
  MaxStates = 2
  Kind = "records"
  NS = 1
  Keys = {"x1"}
  Vals = {"v1", "v2"}
  Handles = {"h1"}
  MaxLen = 5
VIEW State
CHECK_DEADLOCK FALSE
