SPECIFICATION Spec
CONSTANTS
  Cols <- FC
  Rows <- FR
  Tot <- QT
INVARIANT Obeys
CHECK_DEADLOCK FALSE
