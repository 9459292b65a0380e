SPECIFICATION GenSpec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 1
  MaxChains = 2
  MaxArchived = 1
  Addrs = {"a", "b"}
  Starters <- StartAB
  OpkIds = {"5"}
  NoOpk = FALSE
  MaxBundles = 1
  MaxMsgs = 5
  MaxDec = 4
  Batch = {1, 2, 3}
  Muts = {}
  Extra = {}
  MaxExtra = 0
VIEW State
CHECK_DEADLOCK FALSE
