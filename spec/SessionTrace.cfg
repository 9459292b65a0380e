SPECIFICATION Spec
CONSTANTS
  MaxJumps = 25000
  MaxKeys = 2000
  MaxChains = 5
  MaxArchived = 40
INVARIANTS SoundOnce SoundKeys SoundAuth SoundBounds SoundOpk
VIEW Seen
CHECK_DEADLOCK FALSE
