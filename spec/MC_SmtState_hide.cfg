INIT InitAll
NEXT Next
CONSTANTS
  Keys <- SerKeys
  Vals = {1, 2}
  Mode = "hide"
  Out <- MCOut
INVARIANTS IsCanonical Answers SameTree SerialRoundTrip EmitSer
CHECK_DEADLOCK FALSE
