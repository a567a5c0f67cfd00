INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANT Newer
CHECK_DEADLOCK FALSE
CONSTANTS
  Numbers = {0, 2, 9, 10}
  MaxLen = 2
  MaxReleases = 3
  MaxSteps = 4
