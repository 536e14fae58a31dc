INIT WideInit
NEXT WideNext
CONSTANTS
  Layouts <- WideLayouts
  PreSegs <- PRE
  Values <- MCV5
  MaxOps = 52
INVARIANTS Coherent Composes Kept WideEmit
CHECK_DEADLOCK FALSE
