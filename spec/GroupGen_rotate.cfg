SPECIFICATION GenSpec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxStates = 2
  Addrs = {"a", "b"}
  Senders = {"a"}
  Dids = {"g1"}
  MaxKeysMade = 3
  MaxDists = 3
  MaxMsgs = 3
  MaxDec = 2
  MaxProc = 2
  MaxReset = 2
  Batch = {1}
  Muts = {}
  DMuts = {}
VIEW State
CHECK_DEADLOCK FALSE
