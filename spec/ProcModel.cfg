INIT Init
NEXT Next
CONSTANTS
  MaxFrames = 3
  Flaw = "none"
INVARIANTS OneOutcome Agrees EmitInv
CHECK_DEADLOCK FALSE
