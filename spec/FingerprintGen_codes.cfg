SPECIFICATION GenSpec
CONSTANTS
  KeySize = 32
  MacSize = 8
  SigSize = 64
  ChainKeySize = 32
  MinIterations = 2
  MaxIterations = 1000000
  ShownSize = 30
  CodeSize = 32
  MaxFields = 3
CHECK_DEADLOCK FALSE
