SPECIFICATION Spec
CONSTANTS
  Archive <- ArchiveDrops
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b"}
  Starters <- StartBoth
  OpkIds = {}
  NoOpk = TRUE
  MaxBundles = 2
  MaxMsgs = 3
  MaxDec = 3
  Batch = {1}
  Muts = {"bad"}
  Extra = {}
  MaxExtra = 0
INVARIANTS InvDelivery
CHECK_DEADLOCK FALSE
