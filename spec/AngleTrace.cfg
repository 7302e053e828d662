INIT TraceInit
NEXT TraceNext
CONSTANT Fails <- EventFails
CHECK_DEADLOCK FALSE
