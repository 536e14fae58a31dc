INIT Init
NEXT Next
CONSTANTS
  Layouts <- MCLayouts
  PreSegs <- PRE
  Values <- MCV3
  MaxOps = 2
INVARIANTS Coherent Composes Kept Emit
CHECK_DEADLOCK FALSE
