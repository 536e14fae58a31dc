INIT Init
NEXT Next
CONSTANTS
  Keys <- SetKeys
  Vals = {1, 2}
  Mode = "set"
  Out <- MCOut
INVARIANTS IsCanonical Answers EmitSet
CHECK_DEADLOCK FALSE
