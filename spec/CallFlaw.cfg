INIT Init
NEXT Next
CONSTANTS
  MaxLen = 4
  Flaw = "first"
CONSTRAINT Silent
INVARIANT RevealInv
CHECK_DEADLOCK FALSE
