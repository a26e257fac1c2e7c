SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxM = 2
  Cells <- CellSet
  Deep = FALSE
INVARIANT Flattening
INVARIANT Spreading
CHECK_DEADLOCK FALSE
