SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 32, 44, 10, 13, 1114112}
  MaxLen = 6
INVARIANTS Agrees FinalTerminator LineEnds Padded WellFormed
CHECK_DEADLOCK FALSE
