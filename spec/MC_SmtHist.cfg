INIT Init
NEXT Next
CONSTANTS
  Keys <- Few
  Vals = {1, 2, 3, 4}
  MaxLen = 60
  Out <- MCOut
INVARIANTS IsCanonical Answers Emit
CHECK_DEADLOCK FALSE
