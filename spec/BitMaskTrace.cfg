INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- BFails
CHECK_DEADLOCK FALSE
