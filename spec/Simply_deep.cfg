INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS ClosedOnce LeftMeansOff Indices
CHECK_DEADLOCK FALSE
CONSTANTS
  Values = {0, 1, 2}
  MaxItems = 4
  MaxSessions = 2
  Opts <- DeepOpts
