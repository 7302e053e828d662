INIT Init
NEXT Next
CONSTANTS
  Edges <- ChainEdges
  Starts <- ChainStarts
  EmitAll = FALSE
INVARIANTS PathIndependent Emit
CHECK_DEADLOCK FALSE
