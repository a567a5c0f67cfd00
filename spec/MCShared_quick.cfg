SPECIFICATION MCSpec
INVARIANTS OpenWhileRead ClosedWithLast OneSession
CHECK_DEADLOCK FALSE
CONSTANTS
  Clients = {1, 2}
  MaxReaders = 3
  MaxSessions = 3
  MaxGiven = 0
