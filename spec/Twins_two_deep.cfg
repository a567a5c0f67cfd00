INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS Isolated Bounded
PROPERTIES Apart Alone
CHECK_DEADLOCK FALSE
CONSTANTS
  Bufs = {1, 2}
  MaxSessions = 1
  MaxTotal = 2
  MaxItems = 2
  MaxAll = 3
  Slots = {1, 2}
  Cfgs <- Both
  Ops = {"read", "next", "drop"}
