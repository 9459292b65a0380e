SPECIFICATION Spec
CONSTANTS
  MacHolds <- MacAny
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b"}
  Starters <- StartAB
  OpkIds = {"5"}
  NoOpk = TRUE
  MaxBundles = 1
  MaxMsgs = 2
  MaxDec = 3
  Batch = {1}
  Muts = {"bad", "unwrap", "alias", "evilbase", "evilid", "noopk", "rewrap", "low", "far", "other"}
  Extra = {}
  MaxExtra = 0
INVARIANTS InvCommands
CHECK_DEADLOCK FALSE
