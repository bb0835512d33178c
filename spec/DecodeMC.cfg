SPECIFICATION Spec
CONSTANTS
  MaxN = 10
  MaxLag = 2
INVARIANT Agreement
CHECK_DEADLOCK FALSE
