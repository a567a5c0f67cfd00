INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS OpenWhileRead ClosedWithLast ClosedOnce OneAtATime
PROPERTY NewFromStart
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxReaders = 3
  MaxSessions = 3
  MaxItems = 1
  ReadCalls = FALSE
  Cfgs = {}
  Kws <- DfltKws
