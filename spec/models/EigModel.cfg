SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 4}
  Shifts = {0, 1}
  Values = {0, 1, 2}
CONSTRAINT Bounded
INVARIANTS EachOnce Pairs Balanced Apart Blocks Sorted Columns
CHECK_DEADLOCK FALSE
