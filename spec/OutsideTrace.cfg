INIT TraceInit
NEXT TraceNext
CONSTANT Fails <- OFails
CHECK_DEADLOCK FALSE
