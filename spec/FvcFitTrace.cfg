INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- FfFails
  Follow <- FfFollow
  Start <- FfStart
CHECK_DEADLOCK FALSE
