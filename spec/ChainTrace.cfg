INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- CFails
  Follow <- FFollow
  Start <- FStart
CHECK_DEADLOCK FALSE
