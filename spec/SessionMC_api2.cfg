SPECIFICATION Spec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b"}
  Starters <- StartAB
  OpkIds = {}
  NoOpk = FALSE
  MaxBundles = 0
  MaxMsgs = 4
  MaxDec = 4
  Batch = {1}
  Muts = {"bad", "alias"}
  Extra = {"ini"}
  MaxExtra = 2
INVARIANTS InvAtMostOnce InvKeysUnique InvAuthentic InvOpkOnce InvPastSafe InvSentSafe InvBounded InvDelivery InvReplayIsDup InvPinned InvCurrent InvRatchetFresh InvConverge InvHeals InvCommands
PROPERTIES PinStable OpkStable
CHECK_DEADLOCK FALSE
