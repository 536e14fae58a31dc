INIT Init
NEXT Next
VIEW View
CONSTANTS
  StateAt <- State
  FirstCase <- FirstEnv
  LastCase <- LastEnv
  Damages <- DamagesEnv
  Out <- MCOut
INVARIANTS Roundtrip NoPrefix Emit
CHECK_DEADLOCK FALSE
