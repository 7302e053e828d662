INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- AsFails
CHECK_DEADLOCK FALSE
