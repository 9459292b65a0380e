SPECIFICATION GenSpec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b"}
  Starters <- StartAB
  OpkIds = {"5"}
  NoOpk = FALSE
  MaxBundles = 1
  MaxMsgs = 5
  MaxDec = 5
  Batch = {1}
  Muts = {}
  Extra = {}
  MaxExtra = 0
VIEW State
CHECK_DEADLOCK FALSE
