INIT Init
NEXT Next
INVARIANTS RoundTrip NoDefaults Emit
CHECK_DEADLOCK FALSE
CONSTANT Written = {"map", "option", "figures"}
