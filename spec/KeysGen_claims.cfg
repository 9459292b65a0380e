SPECIFICATION GenSpec
CONSTANTS
  Names = {1, 2, 3}
  Pieces <- PieceSet
  MaxParts = 2
  Muts = {"none", "r", "s", "sign", "top", "short", "long", "empty", "zero", "order", "swap"}
CHECK_DEADLOCK FALSE
