INIT TraceInit
NEXT TraceNext
CONSTANT Fails <- GFails
CHECK_DEADLOCK FALSE
