INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- FFails
  Follow <- FFollow
  Start <- FStart
CHECK_DEADLOCK FALSE
