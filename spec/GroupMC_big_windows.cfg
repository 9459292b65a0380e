SPECIFICATION Spec
CONSTANTS
  MaxJumps = 3
  MaxKeys = 2
  MaxStates = 2
  Addrs = {"a", "b"}
  Senders = {"a"}
  Dids = {"g1"}
  MaxKeysMade = 1
  MaxDists = 2
  MaxMsgs = 9
  MaxDec = 6
  MaxProc = 2
  MaxReset = 0
  Batch = {1, 2, 4}
  Muts = {}
  DMuts = {}
INVARIANTS InvAtMostOnce InvKeysUnique InvBounded InvPastSafe InvSentSafe InvOnlyOwnerSigns InvDelivery InvDuplicate InvAuthentic InvRekeyHeals InvCommands
PROPERTIES NoRewind
CHECK_DEADLOCK FALSE
