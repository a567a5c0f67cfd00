INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS Balanced OnlyExitSuppresses
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxDepth = 2
  MaxCalls = 2
  MaxExits = 3
