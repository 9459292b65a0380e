SPECIFICATION Spec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxStates = 2
  Addrs = {"a", "b"}
  Senders = {"a"}
  Dids = {"g1"}
  MaxKeysMade = 1
  MaxDists = 1
  MaxMsgs = 2
  MaxDec = 3
  MaxProc = 3
  MaxReset = 0
  Batch = {1}
  Muts = {"bad", "evil", "it"}
  DMuts = {"sk", "seed"}
INVARIANTS InvAtMostOnce InvKeysUnique InvBounded InvPastSafe InvSentSafe InvOnlyOwnerSigns InvDelivery InvDuplicate InvAuthentic InvRekeyHeals InvCommands
PROPERTIES NoRewind
CHECK_DEADLOCK FALSE
