INIT Init
NEXT Next
INVARIANT NothingOpen
CHECK_DEADLOCK FALSE
CONSTANTS
  NKeys = 3
  NGiven = 1
  Most = 2
  MaxTokens = 4
