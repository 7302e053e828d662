INIT Init
NEXT SkyNext
CONSTANTS
  Edges <- SkyEdges
  Starts <- SkyStarts
  EmitAll = FALSE
  MaxLen = 14
INVARIANTS PathIndependent SEmit
CHECK_DEADLOCK FALSE
