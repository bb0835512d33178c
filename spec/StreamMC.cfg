SPECIFICATION Spec
CONSTANTS
  MaxN = 12
  MaxKfs = {0, 5, 6, 7}
  OHB = 6
INVARIANT StreamOk
CHECK_DEADLOCK FALSE
