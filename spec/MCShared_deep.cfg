SPECIFICATION MCSpec
INVARIANTS OpenWhileRead ClosedWithLast OneSession
CHECK_DEADLOCK FALSE
CONSTANTS
  Clients = {1, 2, 3}
  MaxReaders = 3
  MaxSessions = 2
  MaxGiven = 1
