INIT Init
NEXT GNext
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  As = {0, 1, 2}
  Bs = {0, 1}
  MaxN = 3
  Bounds = {99, 0, 1, 2, 3}
  Kinds = {"C", "D"}
  Free = 99
