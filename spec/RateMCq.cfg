SPECIFICATION Spec
CONSTANTS Top = 5 Cap = 4 Frames = 3
INVARIANTS Bounded NeverZero BaseBounded
CHECK_DEADLOCK FALSE
