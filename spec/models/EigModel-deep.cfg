SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 4, 5, 6}
  Shifts = {0}
  Values = {0, 1, 2}
INVARIANTS EachOnce Pairs Balanced Apart Blocks Sorted Columns
PROPERTIES Ends
CHECK_DEADLOCK FALSE
