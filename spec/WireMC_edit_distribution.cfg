SPECIFICATION Spec
CONSTANTS
  KeySize = 32
  MacSize = 8
  SigSize = 64
  ChainKeySize = 32
  Kind = "distribution"
  Mode = "edit"
  MaxFields = 0
  MaxEdits = 1
INVARIANTS InvFixedPoint InvHeader InvLast
VIEW Same
CHECK_DEADLOCK FALSE
