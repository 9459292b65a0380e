SPECIFICATION GenSpec
CONSTANTS
  KeySize = 32
  MacSize = 8
  SigSize = 64
  ChainKeySize = 32
  Kind = "signal"
  Mode = "edit"
  MaxFields = 0
  MaxEdits = 1
CHECK_DEADLOCK FALSE
