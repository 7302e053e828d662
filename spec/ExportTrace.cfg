INIT TraceInit
NEXT TraceNext
CONSTANT Fails <- EFails
CHECK_DEADLOCK FALSE
