INIT CInit
NEXT CNext
VIEW CView
CONSTANTS
  CaseAt <- MCCase
  FirstCase <- FirstEnv
  LastCase <- LastEnv
  Out <- MCOut
  Part <- MCPart
INVARIANTS StackBound GasBound NoMint Conserve StaticSame NoncesGrow NoEmptyAccounts NoZeroSlots PartsCompose ClaimsMatter CEmit
CHECK_DEADLOCK FALSE
