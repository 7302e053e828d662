INIT Init
NEXT Next
INVARIANT GroupsApart
INVARIANT OneGroup
INVARIANT LeftOutForCause
INVARIANT FarIsOk
INVARIANT WiderLimit
INVARIANT CornersOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Side = 3
  K = 6
  Lim2 = 3
  NGroups = 2
  Ordered = TRUE
