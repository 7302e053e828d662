INIT Init
NEXT Next
INVARIANT Recovered
INVARIANT RotationFound
INVARIANT Converges
INVARIANT OnlyGood
INVARIANT AllGood
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  NRows = 4
  NFits = 3
  WrongOrder = FALSE
  KeepBad = FALSE
