INIT Init
NEXT Next
INVARIANTS Holds HoldsKeep Emit
CHECK_DEADLOCK FALSE
