SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxM = 2
  Cells <- CellSet
  Deep = FALSE
INVARIANT Inserting
INVARIANT Reinsert
CHECK_DEADLOCK FALSE
