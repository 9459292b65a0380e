SPECIFICATION GenSpec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxStates = 2
  Addrs = {"a", "b"}
  Senders = {"a"}
  Dids = {"g1", "g2"}
  MaxKeysMade = 2
  MaxDists = 2
  MaxMsgs = 3
  MaxDec = 2
  MaxProc = 2
  MaxReset = 0
  Batch = {1}
  Muts = {"did"}
  DMuts = {}
VIEW State
CHECK_DEADLOCK FALSE
