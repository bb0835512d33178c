SPECIFICATION Spec
CONSTANTS
  MaxN = 8
  MaxLag = 2
INVARIANT Agreement
CHECK_DEADLOCK FALSE
