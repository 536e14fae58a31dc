INIT Init
NEXT Next
CONSTANTS
  Handles = {1, 2, 3}
  Keys <- BigKeys
  ValIds = {1,2,3,4,5,6,7}
  ValOf <- MCValOf
  MaxLen = 60
  RandomGet = TRUE
  Out <- MCOut
INVARIANTS TreesCanonical Emit
CHECK_DEADLOCK FALSE
