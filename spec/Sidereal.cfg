INIT TraceInit
NEXT TraceNext
CONSTANT Fails <- TFails
CHECK_DEADLOCK FALSE
