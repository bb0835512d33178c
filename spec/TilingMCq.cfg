SPECIFICATION Spec
CONSTANTS
  Cols <- QC
  Rows <- QR
  Tot <- QT
INVARIANT Obeys
CHECK_DEADLOCK FALSE
