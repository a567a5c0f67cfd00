INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS OpenWhileRead ClosedWithLast ClosedOnce OneAtATime
PROPERTY NewFromStart
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxReaders = 3
  MaxSessions = 2
  MaxItems = 2
  ReadCalls = TRUE
  Cfgs = {}
  Kws <- SomeKws
