SPECIFICATION Spec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b"}
  Starters <- StartBoth
  OpkIds = {}
  NoOpk = TRUE
  MaxBundles = 2
  MaxMsgs = 4
  MaxDec = 4
  Batch = {1}
  Muts = {"bad", "unwrap", "alias", "rewrap"}
  Extra = {"arc"}
  MaxExtra = 1
INVARIANTS InvAtMostOnce InvKeysUnique InvAuthentic InvOpkOnce InvPastSafe InvSentSafe InvBounded InvDelivery InvReplayIsDup InvPinned InvCurrent InvRatchetFresh InvConverge InvHeals InvCommands
PROPERTIES PinStable OpkStable
CHECK_DEADLOCK FALSE
