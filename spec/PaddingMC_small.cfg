SPECIFICATION Spec
CONSTANTS
  Block = 3
  KeySizes = {2}
  SureKeySize = 2
  Alphabet = {0, 1, 2, 3, 4}
  MaxLen = 7
INVARIANTS InvInverse InvShortest InvOnly InvPrefix
CHECK_DEADLOCK FALSE
