SPECIFICATION Spec
CONSTANTS
  MaxJumps = 25000
  MaxKeys = 2000
  MaxStates = 5
INVARIANTS SoundOnce SoundKeys SoundBounds SoundSigns
VIEW Seen
CHECK_DEADLOCK FALSE
