INIT Init
NEXT Next
CONSTANTS
  NKeys = 4
  LenB = 3
  Flaw = "none"
INVARIANTS Right EmitInv
CHECK_DEADLOCK FALSE
