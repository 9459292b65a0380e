SPECIFICATION Spec
CONSTANTS
  KeySize = 32
  MacSize = 8
  SigSize = 64
  ChainKeySize = 32
  MinIterations = 2
  MaxIterations = 1000000
  ShownSize = 30
  CodeSize = 32
  Judge <- FpJudge
VIEW Seen
CHECK_DEADLOCK FALSE
