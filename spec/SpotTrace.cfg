INIT TraceInit
NEXT TraceNext
CONSTANT Fails <- SFails
CHECK_DEADLOCK FALSE
