SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxM = 2
  Cells <- CellSet
  Deep = FALSE
INVARIANT Joining
CHECK_DEADLOCK FALSE
