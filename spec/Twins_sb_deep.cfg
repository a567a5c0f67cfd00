INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS Isolated Bounded
PROPERTIES Apart Alone
CHECK_DEADLOCK FALSE
CONSTANTS
  Bufs = {1, 2}
  MaxSessions = 2
  MaxTotal = 3
  MaxItems = 2
  MaxAll = 3
  Slots = {1}
  Cfgs <- Both
  Ops = {"sb", "die"}
