SPECIFICATION Spec
CONSTANTS
  Encoders = {1, 2}
  Tiles = 2
  Workers = {1, 2}
  FramesN = 2
  Steps = 2
INVARIANT Deterministic
PROPERTY Finishes
CHECK_DEADLOCK FALSE
