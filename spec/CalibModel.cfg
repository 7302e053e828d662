INIT Init
NEXT Next
INVARIANT Sane
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Gaps = {1, 3}
  Notes <- HistNotes
  Periods = {4}
  Sizes = {2}
  Sels <- HistSels
  Quiet = FALSE
