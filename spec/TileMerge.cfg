SPECIFICATION Spec
CONSTANTS
  Encoders = {1, 2}
  Tiles = 3
  Workers = {1, 2, 3}
  FramesN = 2
  Steps = 2
INVARIANT Deterministic
CHECK_DEADLOCK FALSE
