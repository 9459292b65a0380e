SPECIFICATION Spec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxStates = 2
  Addrs = {"a", "b"}
  Senders = {"a"}
  Dids = {"g1"}
  MaxKeysMade = 4
  MaxDists = 4
  MaxMsgs = 3
  MaxDec = 2
  MaxProc = 4
  MaxReset = 3
  Batch = {1}
  Muts = {}
  DMuts = {}
INVARIANTS InvAtMostOnce InvKeysUnique InvBounded InvPastSafe InvSentSafe InvOnlyOwnerSigns InvDelivery InvDuplicate InvAuthentic InvRekeyHeals InvCommands
PROPERTIES NoRewind
CHECK_DEADLOCK FALSE
