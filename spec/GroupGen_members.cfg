SPECIFICATION GenSpec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxStates = 2
  Addrs = {"a", "b", "c"}
  Senders = {"a", "c"}
  Dids = {"g1"}
  MaxKeysMade = 2
  MaxDists = 2
  MaxMsgs = 2
  MaxDec = 2
  MaxProc = 2
  MaxReset = 0
  Batch = {1}
  Muts = {}
  DMuts = {}
VIEW State
CHECK_DEADLOCK FALSE
