INIT Init
NEXT Next
CONSTANTS
  MaxLen = 4
  Flaw = "none"
INVARIANTS Pure Intact EmitInv
CHECK_DEADLOCK FALSE
