INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- MsFails
  Follow <- MsFollow
  Start <- MsStart
CHECK_DEADLOCK FALSE
