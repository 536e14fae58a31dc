INIT Init
NEXT Next
VIEW View
CONSTANTS
  CaseAt <- MCCase
  FirstCase <- FirstEnv
  LastCase <- LastEnv
  Out <- MCOut
INVARIANTS StackBound GasBound MemAligned NoMint Conserve StaticSame NoncesGrow NoEmptyAccounts NoZeroSlots Receipts Emit
CHECK_DEADLOCK FALSE
