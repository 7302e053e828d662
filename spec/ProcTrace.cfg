INIT TraceInit
NEXT TraceNext
CONSTANT Fails <- PFails
CHECK_DEADLOCK FALSE
