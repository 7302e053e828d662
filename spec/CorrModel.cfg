INIT Init
NEXT Next
CONSTANTS
  Data = {"A", "B", "C"}
  MaxLen = 4
  Flaw = "none"
INVARIANTS OfLast EmitInv
CHECK_DEADLOCK FALSE
