SPECIFICATION Spec
CONSTANTS
  MaxJumps = 2
  MaxKeys = 2
  MaxStates = 2
  Addrs = {"a", "b", "c"}
  Senders = {"a", "c"}
  Dids = {"g1"}
  MaxKeysMade = 2
  MaxDists = 2
  MaxMsgs = 3
  MaxDec = 3
  MaxProc = 3
  MaxReset = 0
  Batch = {1}
  Muts = {}
  DMuts = {}
INVARIANTS InvAtMostOnce InvKeysUnique InvBounded InvPastSafe InvSentSafe InvOnlyOwnerSigns InvDelivery InvDuplicate InvAuthentic InvRekeyHeals InvCommands
PROPERTIES NoRewind
CHECK_DEADLOCK FALSE
