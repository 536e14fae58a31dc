INIT Init
NEXT Next
CONSTANTS
  Keys <- MCKeys
  ValIds = {1, 2}
  ValOf <- MCValOf
  Out <- MCOut
INVARIANTS TreeIsCanonical LookupsAgree ItemsAgree NoRedundantNode Emit
CHECK_DEADLOCK FALSE
