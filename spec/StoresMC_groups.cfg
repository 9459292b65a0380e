SPECIFICATION Spec
CONSTANTS
  MaxArchived = 2
  MaxChains = 2
  MaxKeys = 2
  MaxStates = 2
  Kind = "groups"
  NS = 1
  Keys = {"x1", "x2"}
  Vals = {"b1"}
  Handles = {"h1", "h2"}
  MaxLen = 5
INVARIANTS InvMap InvArchive InvSenders InvBounded InvIds InvTaken InvFrame
CHECK_DEADLOCK FALSE
