SPECIFICATION Spec
CONSTANTS
  KeySize = 32
  MacSize = 8
  SigSize = 64
  ChainKeySize = 32
  MinIterations = 2
  MaxIterations = 1000000
  ShownSize = 30
  CodeSize = 32
  Ids = {1, 2}
  Keys = {1, 2}
  Versions = {1, 2}
  Iterations = {2, 3}
INVARIANTS InvNumber InvCode
CHECK_DEADLOCK FALSE
