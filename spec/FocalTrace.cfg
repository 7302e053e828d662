INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- FocalFails
  Follow <- FFollow
  Start <- FStart
CHECK_DEADLOCK FALSE
