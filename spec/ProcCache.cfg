INIT Init
NEXT Next
CONSTANTS
  MaxLen = 5
  Flaw = "none"
INVARIANTS Fresh EmitInv
CHECK_DEADLOCK FALSE
