SPECIFICATION Spec
CONSTANTS
  Block = 16
  KeySizes = {16, 24, 32}
  SureKeySize = 32
  Judge <- PadJudge
VIEW Seen
CHECK_DEADLOCK FALSE
