INIT Init
NEXT Next
INVARIANT OwnParameters
INVARIANT TablesIntact
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Shared = FALSE
  Length = 3
  Kinds = {"plain", "drift", "many", "late", "gear", "stuck", "outlier", "nohome"}
