SPECIFICATION Spec
CONSTANTS
  Reset <- ResetNot
  MaxJumps = 2
  MaxKeys = 2
  MaxStates = 2
  Addrs = {"a", "b"}
  Senders = {"a"}
  Dids = {"g1"}
  MaxKeysMade = 3
  MaxDists = 3
  MaxMsgs = 3
  MaxDec = 2
  MaxProc = 3
  MaxReset = 2
  Batch = {1}
  Muts = {}
  DMuts = {}
INVARIANTS InvRekeyHeals
CHECK_DEADLOCK FALSE
