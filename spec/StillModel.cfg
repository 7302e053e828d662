INIT Init
NEXT Next
CONSTANTS
  N = 5
  Flaw = "none"
INVARIANTS Consistent EmitInv
CHECK_DEADLOCK FALSE
