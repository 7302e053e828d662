INIT Init
NEXT Next
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
