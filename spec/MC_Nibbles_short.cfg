INIT Init
NEXT Next
CONSTANTS
  Alphabet = {0, 1, 15}
  MaxLen = 4
  Base <- Empty
  Out <- MCOut
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
