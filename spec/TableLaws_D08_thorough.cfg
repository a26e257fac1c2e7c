SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxM = 2
  Cells <- CellSet2
  Deep = FALSE
INVARIANT Flattening
INVARIANT Spreading
CHECK_DEADLOCK FALSE
