INIT Init
NEXT Next
CONSTANTS
  Layouts <- MCLayouts
  PreSegs <- PRE
  Values <- MCV2
  MaxOps = 3
INVARIANTS Coherent Composes Kept Emit
CHECK_DEADLOCK FALSE
