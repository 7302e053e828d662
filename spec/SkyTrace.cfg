INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- SkyFails
  Follow <- FFollow
  Start <- FStart
CHECK_DEADLOCK FALSE
