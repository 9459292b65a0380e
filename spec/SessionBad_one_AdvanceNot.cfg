SPECIFICATION Spec
CONSTANTS
  Advance <- AdvanceNot
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b"}
  Starters <- StartAB
  OpkIds = {"5"}
  NoOpk = TRUE
  MaxBundles = 1
  MaxMsgs = 3
  MaxDec = 4
  Batch = {1}
  Muts = {"bad", "unwrap", "alias"}
  Extra = {"arc"}
  MaxExtra = 1
INVARIANTS InvKeysUnique
CHECK_DEADLOCK FALSE
