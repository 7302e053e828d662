INIT Init
NEXT Next
CONSTANTS
  Edges <- LookupEdges
  Starts <- LookupStarts
  EmitAll = FALSE
INVARIANTS PathIndependent Emit
CHECK_DEADLOCK FALSE
