INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANT RoundTrip
PROPERTY OthersStay
CHECK_DEADLOCK FALSE
CONSTANTS
  Sections = {1, 2}
  Options = {1, 2}
  Values = {11, 12, 21, 22, 23, 24}
  MaxWrites = 3
