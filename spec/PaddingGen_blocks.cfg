SPECIFICATION GenSpec
CONSTANTS
  Block = 16
  KeySizes = {16, 24, 32}
  SureKeySize = 32
  Dirt = {0, 1, 2, 15, 16, 17, 255}
CHECK_DEADLOCK FALSE
