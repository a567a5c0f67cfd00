INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS OneAtATime ClosedOnce FailedEnds Truth Isolated Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSessions = 2
  MaxItems = 3
  Slots = {1}
  Cfgs <- Three
  Fails = {"open"}
  Ops = {"iter", "block", "tail", "next"}
