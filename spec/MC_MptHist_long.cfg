INIT Init
NEXT Next
CONSTANTS
  Handles = {1, 2, 3}
  Keys <- LongKeys
  ValIds = {1,2,6,7}
  ValOf <- MCValOf
  MaxLen = 40
  RandomGet = TRUE
  Out <- MCOut
INVARIANTS TreesCanonical Emit
CHECK_DEADLOCK FALSE
