INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS OneAtATime ClosedOnce FailedEnds Truth Isolated Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSessions = 1
  MaxItems = 5
  Slots = {1}
  Cfgs <- Both
  Fails = {}
  Ops = {"drop", "read", "sb"}
