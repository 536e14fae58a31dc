INIT Init
NEXT Next
CONSTANTS
  Keys <- MCKeys
  Absent <- MCAbsent
  Requests <- MCRequests
  ValIds = {1,2}
  ValOf <- MCValOf
  Out <- MCOut
INVARIANTS SameRoot PathSound EmitPaths
CHECK_DEADLOCK FALSE
