SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxM = 2
  Cells <- CellSet2
  Deep = FALSE
INVARIANT Joining
CHECK_DEADLOCK FALSE
