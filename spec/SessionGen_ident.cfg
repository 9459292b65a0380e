SPECIFICATION GenSpec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b"}
  Starters <- StartAB
  OpkIds = {"5"}
  NoOpk = FALSE
  MaxBundles = 2
  MaxMsgs = 2
  MaxDec = 2
  Batch = {1}
  Muts = {"evilid", "bad"}
  Extra = {"tru", "clr", "badsig"}
  MaxExtra = 2
VIEW State
CHECK_DEADLOCK FALSE
