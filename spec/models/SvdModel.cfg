SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3}
  Top = 2
INVARIANTS NoZeroPair Together FinishedInOrder FinishedApart
PROPERTIES Ends
CHECK_DEADLOCK FALSE
