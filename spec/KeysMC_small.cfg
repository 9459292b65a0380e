SPECIFICATION Spec
CONSTANTS
  Names = {1, 2, 3}
  Pieces <- PieceSet
  MaxParts = 2
  Muts = {"none", "r", "s", "sign", "top", "short", "long", "empty", "zero", "order", "swap"}
INVARIANTS InvExact InvSplit InvAlt InvDh
CHECK_DEADLOCK FALSE
