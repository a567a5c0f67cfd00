INIT Init
NEXT Next
INVARIANT NothingOpen
CHECK_DEADLOCK FALSE
CONSTANTS
  NKeys = 3
  NGiven = 2
  Most = 2
  MaxTokens = 6
