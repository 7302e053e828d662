INIT TraceInit
NEXT TraceNext
CONSTANT Fails <- AFails
CHECK_DEADLOCK FALSE
