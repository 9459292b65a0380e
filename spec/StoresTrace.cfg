SPECIFICATION Spec
CONSTANTS
  MaxArchived = 40
  MaxChains = 5
  MaxKeys = 2000
  MaxStates = 5
VIEW Seen
CHECK_DEADLOCK FALSE
