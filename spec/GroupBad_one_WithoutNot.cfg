SPECIFICATION Spec
CONSTANTS
  TakeOut <- WithoutNot
  MaxJumps = 2
  MaxKeys = 2
  MaxStates = 2
  Addrs = {"a", "b"}
  Senders = {"a"}
  Dids = {"g1"}
  MaxKeysMade = 1
  MaxDists = 2
  MaxMsgs = 4
  MaxDec = 4
  MaxProc = 2
  MaxReset = 0
  Batch = {1}
  Muts = {"bad"}
  DMuts = {}
INVARIANTS InvPastSafe
CHECK_DEADLOCK FALSE
