INIT Init
NEXT Next
INVARIANTS Requirement CriteriaAgree Emit
CHECK_DEADLOCK FALSE
