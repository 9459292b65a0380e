SPECIFICATION Spec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxChains = 3
  MaxArchived = 3
  Addrs = {"a", "b"}
  Starters <- StartBoth
  OpkIds = {"5"}
  NoOpk = TRUE
  MaxBundles = 2
  MaxMsgs = 3
  MaxDec = 3
  Batch = {1}
  Muts = {"evilid", "evilbase"}
  Extra = {"tru", "clr", "arc"}
  MaxExtra = 2
INVARIANTS InvAtMostOnce InvKeysUnique InvAuthentic InvOpkOnce InvPastSafe InvSentSafe InvBounded InvDelivery InvReplayIsDup InvPinned InvCurrent InvRatchetFresh InvConverge InvHeals InvCommands
PROPERTIES PinStable OpkStable
CHECK_DEADLOCK FALSE
