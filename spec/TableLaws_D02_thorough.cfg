SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxM = 2
  Cells <- CellSet2
  Deep = FALSE
INVARIANT Involution
INVARIANT Permuting
INVARIANT Sorting
INVARIANT Repeating
CHECK_DEADLOCK FALSE
