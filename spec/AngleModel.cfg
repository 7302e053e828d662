INIT Init
NEXT Next
INVARIANTS Congruent Directed Natural Bounded Undo
CHECK_DEADLOCK FALSE
