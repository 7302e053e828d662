INIT Init
NEXT Next
INVARIANTS OwnRow Emit
CHECK_DEADLOCK FALSE
