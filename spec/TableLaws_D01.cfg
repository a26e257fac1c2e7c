SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxM = 2
  Cells <- CellSet2
  Deep = FALSE
INVARIANT Sound
INVARIANT Partition
INVARIANT Reinsert
INVARIANT Dual
CHECK_DEADLOCK FALSE
