SPECIFICATION Spec
CONSTANTS
  N = 4
  Ahead = 2
  NSlots = 2
  MaxHidden = 2
INVARIANTS Allowed Bounded
PROPERTY Drained
CHECK_DEADLOCK FALSE
