INIT Init
NEXT Next
CONSTANTS
  Operands <- MCOperands
  Pack <- MCPack
  Packs = 4
  FirstCase <- FirstEnv
  LastCase <- LastEnv
  Out <- MCOut
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
