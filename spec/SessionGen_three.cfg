SPECIFICATION GenSpec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b", "c"}
  Starters <- StartAC
  OpkIds = {"5"}
  NoOpk = TRUE
  MaxBundles = 2
  MaxMsgs = 2
  MaxDec = 3
  Batch = {1}
  Muts = {"rewrap"}
  Extra = {}
  MaxExtra = 0
VIEW State
CHECK_DEADLOCK FALSE
