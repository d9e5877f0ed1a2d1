SPECIFICATION Spec
CONSTANTS
  MaxRows = 9
  MaxCols = 9
INVARIANTS Transposed Conserved NeverTwice
PROPERTIES Ends
CHECK_DEADLOCK FALSE
