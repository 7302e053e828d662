INIT Init
NEXT Next
CONSTANTS
  Scenes = {"A", "B"}
INVARIANTS Fixed Latest Emit
CHECK_DEADLOCK FALSE
