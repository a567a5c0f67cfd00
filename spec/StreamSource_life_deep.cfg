INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS OpenWhileRead ClosedWithLast ClosedOnce OneAtATime
PROPERTY NewFromStart
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxReaders = 4
  MaxSessions = 3
  MaxItems = 2
  ReadCalls = FALSE
  Cfgs = {}
  Kws <- DfltKws
