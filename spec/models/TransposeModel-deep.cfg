SPECIFICATION Spec
CONSTANTS
  MaxRows = 16
  MaxCols = 16
INVARIANTS Transposed Conserved NeverTwice
PROPERTIES Ends
CHECK_DEADLOCK FALSE
