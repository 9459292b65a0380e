SPECIFICATION Spec
CONSTANTS
  Consumes <- ConsumesNever
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b", "c"}
  Starters <- StartAC
  OpkIds = {"5"}
  NoOpk = FALSE
  MaxBundles = 2
  MaxMsgs = 2
  MaxDec = 2
  Batch = {1}
  Muts = {}
  Extra = {}
  MaxExtra = 0
INVARIANTS InvOpkOnce
CHECK_DEADLOCK FALSE
