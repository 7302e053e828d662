INIT Init
NEXT Next
INVARIANT JoinedRight
INVARIANT OwnRows
INVARIANT Everything
INVARIANT OnlyMeasured
INVARIANT Widen
INVARIANT LatestAreLatest
INVARIANT HistoryComplete
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxEvents = 5
  ByTime = TRUE
