INIT Init
NEXT Next
INVARIANT AllLines
INVARIANT Unchanged
INVARIANT Refusal
INVARIANT NeverWithoutReason
INVARIANT Located
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxFiles = 2
  MaxRows = 2
  MaxOdd = 1
  NoFill = FALSE
