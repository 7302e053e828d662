INIT Init
NEXT Next
CONSTANTS
  Edges <- FocalEdges
  Starts <- FocalStarts
  EmitAll = FALSE
INVARIANTS PathIndependent FEmit
CHECK_DEADLOCK FALSE
