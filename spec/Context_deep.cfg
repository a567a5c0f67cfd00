INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS Balanced OnlyExitSuppresses
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxDepth = 4
  MaxCalls = 4
  MaxExits = 6
