INIT Init
NEXT Next
CONSTANTS
  Keys <- DeepKeys
  Absent <- DeepAbsent
  Requests <- DeepRequests
  ValIds = {1,2}
  ValOf <- MCValOf
  Out <- MCOut
INVARIANTS SameRoot PathSound EmitPaths
CHECK_DEADLOCK FALSE
