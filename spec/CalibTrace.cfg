INIT TraceInit
NEXT TraceNext
CONSTANT Fails <- CFails
CHECK_DEADLOCK FALSE
