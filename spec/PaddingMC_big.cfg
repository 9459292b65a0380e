SPECIFICATION Spec
CONSTANTS
  Block = 4
  KeySizes = {2}
  SureKeySize = 2
  Alphabet = {0, 1, 2, 3, 4, 5}
  MaxLen = 8
INVARIANTS InvInverse InvShortest InvOnly InvPrefix
CHECK_DEADLOCK FALSE
