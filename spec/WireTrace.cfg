SPECIFICATION Spec
CONSTANTS
  KeySize = 32
  MacSize = 8
  SigSize = 64
  ChainKeySize = 32
  Judge <- WireJudge
VIEW Seen
CHECK_DEADLOCK FALSE
