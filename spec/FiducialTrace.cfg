INIT TraceInit
NEXT TraceNext
CONSTANTS
  Fails <- FiFails
  Follow <- FiFollow
  Start <- FiStart
CHECK_DEADLOCK FALSE
