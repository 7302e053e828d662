INIT Init
NEXT Next
CONSTANTS
  Lenses = {"init", "canon-lens", "single-lens"}
  Recompute = TRUE
INVARIANTS Correct Emit
CHECK_DEADLOCK FALSE
