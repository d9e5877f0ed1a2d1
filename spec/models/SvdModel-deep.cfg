SPECIFICATION Spec
CONSTANTS
  Sizes = {4}
  Top = 2
INVARIANTS NoZeroPair Together FinishedInOrder FinishedApart
PROPERTIES Ends
CHECK_DEADLOCK FALSE
