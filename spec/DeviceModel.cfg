INIT Init
NEXT Next
INVARIANTS Right EmitInv
CONSTANTS
 NExp = 7
 Flaw = "none"
CHECK_DEADLOCK FALSE
