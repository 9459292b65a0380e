SPECIFICATION Spec
CONSTANTS
  KeySize = 1
  MacSize = 1
  SigSize = 1
  ChainKeySize = 1
  Kind = "distribution"
  Mode = "free"
  MaxFields = 3
  MaxEdits = 0
INVARIANTS InvFixedPoint InvHeader InvLast
VIEW Same
CHECK_DEADLOCK FALSE
