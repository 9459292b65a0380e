SPECIFICATION Spec
CONSTANTS
  MaxArchived = 2
  MaxChains = 2
  MaxKeys = 2
  MaxStates = 2
  Kind = "senders"
  NS = 1
  Keys = {"x1"}
  Vals = {"v1", "v2", "v3"}
  Handles = {"h1"}
  MaxLen = 6
INVARIANTS InvMap InvArchive InvSenders InvBounded InvIds InvTaken InvFrame
CHECK_DEADLOCK FALSE
