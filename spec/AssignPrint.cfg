INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- PrFails
CHECK_DEADLOCK FALSE
