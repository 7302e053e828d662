INIT Init
NEXT Next
INVARIANT Sane
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Gaps = {1, 5}
  Notes <- NoNotes
  Periods = {4, 8, 100}
  Sizes = {1, 3, 5, 20}
  Sels <- NoSels
  Quiet = TRUE
