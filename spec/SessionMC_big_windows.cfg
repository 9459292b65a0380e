SPECIFICATION Spec
CONSTANTS
  MaxJumps = 3
  MaxKeys = 2
  MaxChains = 2
  MaxArchived = 1
  Addrs = {"a", "b"}
  Starters <- StartAB
  OpkIds = {"5"}
  NoOpk = FALSE
  MaxBundles = 1
  MaxMsgs = 7
  MaxDec = 6
  Batch = {1, 2, 4}
  Muts = {}
  Extra = {}
  MaxExtra = 0
INVARIANTS InvAtMostOnce InvKeysUnique InvAuthentic InvOpkOnce InvPastSafe InvSentSafe InvBounded InvDelivery InvReplayIsDup InvPinned InvCurrent InvRatchetFresh InvConverge InvHeals InvCommands
PROPERTIES PinStable OpkStable
CHECK_DEADLOCK FALSE
