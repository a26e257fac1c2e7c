SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxM = 2
  Cells <- CellSet2
  Deep = FALSE
INVARIANT Inserting
INVARIANT Reinsert
CHECK_DEADLOCK FALSE
