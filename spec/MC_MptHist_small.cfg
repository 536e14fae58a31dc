INIT Init
NEXT Next
CONSTANTS
  Handles = {1, 2}
  Keys <- SmallKeys
  ValIds = {2}
  ValOf <- MCValOf
  MaxLen = 4
  RandomGet = FALSE
  Out <- MCOut
INVARIANTS TreesCanonical Emit
CHECK_DEADLOCK FALSE
