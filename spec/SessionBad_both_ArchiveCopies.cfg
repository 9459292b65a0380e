SPECIFICATION Spec
CONSTANTS
  Archive <- ArchiveCopies
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b"}
  Starters <- StartBoth
  OpkIds = {}
  NoOpk = TRUE
  MaxBundles = 2
  MaxMsgs = 3
  MaxDec = 3
  Batch = {1}
  Muts = {"bad"}
  Extra = {"arc"}
  MaxExtra = 1
INVARIANTS InvCurrent
CHECK_DEADLOCK FALSE
