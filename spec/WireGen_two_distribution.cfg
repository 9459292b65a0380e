SPECIFICATION GenSpec
CONSTANTS
  KeySize = 32
  MacSize = 8
  SigSize = 64
  ChainKeySize = 32
  Kind = "distribution"
  Mode = "edit"
  MaxFields = 0
  MaxEdits = 2
CHECK_DEADLOCK FALSE
