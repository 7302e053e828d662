INIT Init
NEXT Next
INVARIANT SameLanguage
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 5
  Alphabet = {"1", "3", ",", ":", "-", ".", " ", "x"}
