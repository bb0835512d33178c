SPECIFICATION Spec
CONSTANTS Top = 8 Cap = 6 Frames = 4
INVARIANTS Bounded NeverZero BaseBounded
CHECK_DEADLOCK FALSE
