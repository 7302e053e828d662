INIT Init
NEXT Next
INVARIANT OneRowEach
INVARIANT Clean
INVARIANT NothingKeptFailed
INVARIANT KeptIffPassed
INVARIANT MissingNeverCommitted
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Extra = 2
  Cumulative = FALSE
  Tables = {1, 2, 3, 4, 5, 6}
