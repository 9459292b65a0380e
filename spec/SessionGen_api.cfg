SPECIFICATION GenSpec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b"}
  Starters <- StartAB
  OpkIds = {"5"}
  NoOpk = FALSE
  MaxBundles = 1
  MaxMsgs = 3
  MaxDec = 3
  Batch = {1}
  Muts = {"noopk"}
  Extra = {"ppk", "ini"}
  MaxExtra = 1
VIEW State
CHECK_DEADLOCK FALSE
