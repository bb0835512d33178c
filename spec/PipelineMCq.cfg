SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  LAs = {1, 3}
  LLs = {0, 1}
  MinKfs = {0, 2}
  MaxKfs = {0, 3}
  Scds = {0, 1}
  Slk = 12
  MaxRecv = 1
INVARIANTS Refines SefSound NoStall NeedMoreBound
CHECK_DEADLOCK FALSE
