INIT Init
NEXT Next
INVARIANT ThereAndBack
INVARIANT BackAndThere
INVARIANT Reported
INVARIANT Ordered
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Naive = FALSE
