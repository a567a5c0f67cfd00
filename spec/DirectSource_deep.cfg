INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS Balanced OnlyValid
PROPERTY NothingSkipped
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  MaxOpens = 2
  MaxAge = 3
  Classes = {"reader", "quick", "valid", "nodata", "stream"}
