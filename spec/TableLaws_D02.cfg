SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxM = 2
  Cells <- CellSet
  Deep = FALSE
INVARIANT Involution
INVARIANT Permuting
INVARIANT Sorting
INVARIANT Repeating
CHECK_DEADLOCK FALSE
