INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS OneAtATime ClosedOnce FailedEnds Truth Isolated Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSessions = 3
  MaxItems = 1
  Slots = {1, 2}
  Cfgs <- Small
  Fails = {"open"}
  Ops = {"state", "next", "sb"}
