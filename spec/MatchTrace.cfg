INIT TraceInit
NEXT TraceNext
CONSTANT Fails <- MFails
CHECK_DEADLOCK FALSE
