INIT Init
NEXT Next
INVARIANTS TrueOrNone OneToOne
CHECK_DEADLOCK FALSE
