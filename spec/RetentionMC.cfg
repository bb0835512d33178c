SPECIFICATION Spec
CONSTANTS
  N = 6
  Ahead = 2
  NSlots = 2
  MaxHidden = 3
INVARIANTS Allowed Bounded
PROPERTY Drained
CHECK_DEADLOCK FALSE
