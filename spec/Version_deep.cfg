INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANT Newer
CHECK_DEADLOCK FALSE
CONSTANTS
  Numbers = {0, 2, 9, 10}
  MaxLen = 3
  MaxReleases = 2
  MaxSteps = 3
