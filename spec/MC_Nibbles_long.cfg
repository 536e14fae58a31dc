INIT LongInit
NEXT LongNext
CONSTANTS
  Alphabet = {0, 9}
  MaxLen = 64
  Base <- Empty
  Out <- MCOut
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
