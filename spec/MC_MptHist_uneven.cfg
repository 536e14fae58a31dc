INIT Init
NEXT Next
CONSTANTS
  Handles = {1, 2, 3}
  Keys <- UnevenKeys
  ValIds = {1,2,4,5,6}
  ValOf <- MCValOf
  MaxLen = 60
  RandomGet = TRUE
  Out <- MCOut
INVARIANTS TreesCanonical Emit
CHECK_DEADLOCK FALSE
