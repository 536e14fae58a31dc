INIT TInit
NEXT TNext
VIEW TView
CONSTANTS
  CaseAt <- MCCase
  FirstCase <- FirstEnv
  LastCase <- LastEnv
  Out <- MCOut
  FakeBlocks <- MCFake
INVARIANTS StackBound GasBound NoMint Conserve StaticSame NoncesGrow NoEmptyAccounts NoZeroSlots Complete TEmit
CHECK_DEADLOCK FALSE
