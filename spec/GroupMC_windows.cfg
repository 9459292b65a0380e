SPECIFICATION Spec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 1
  MaxStates = 2
  Addrs = {"a", "b"}
  Senders = {"a"}
  Dids = {"g1"}
  MaxKeysMade = 1
  MaxDists = 1
  MaxMsgs = 7
  MaxDec = 4
  MaxProc = 1
  MaxReset = 0
  Batch = {1, 3}
  Muts = {}
  DMuts = {}
INVARIANTS InvAtMostOnce InvKeysUnique InvBounded InvPastSafe InvSentSafe InvOnlyOwnerSigns InvDelivery InvDuplicate InvAuthentic InvRekeyHeals InvCommands
PROPERTIES NoRewind
CHECK_DEADLOCK FALSE
