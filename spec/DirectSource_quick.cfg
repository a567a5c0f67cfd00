INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS Balanced OnlyValid
PROPERTY NothingSkipped
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
  MaxOpens = 2
  MaxAge = 2
  Classes = {"reader", "quick", "valid", "nodata", "stream"}
