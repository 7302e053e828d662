INIT Init
NEXT Next
INVARIANTS GoodStay AllFound EnoughLeft EmitInv
CONSTANTS
 MaxN = 14
 MaxK = 2
 Flaw = "none"
CHECK_DEADLOCK FALSE
