INIT Init
NEXT Next
CONSTANTS
  NKeys = 3
  NTabs = 3
  Flaw = "none"
INVARIANTS OwnMean EmitInv
CHECK_DEADLOCK FALSE
