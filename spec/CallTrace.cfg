INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- CFails
  Follow <- CFollow
  Start <- CStart
CHECK_DEADLOCK FALSE
