INIT Init
NEXT Next
CONSTANTS
  N = 12
  M = 15
  Flaw = "none"
INVARIANTS Once Bright Fits EmitInv
CHECK_DEADLOCK FALSE
