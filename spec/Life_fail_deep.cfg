INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS OneAtATime ClosedOnce FailedEnds Truth Isolated Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSessions = 3
  MaxItems = 2
  Slots = {1}
  Cfgs <- Three
  Fails = {"open", "info"}
  Ops = {"state", "next", "iter", "sb", "block"}
