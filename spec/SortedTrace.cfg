INIT TInit
NEXT TNext
INVARIANTS Inv Report
CHECK_DEADLOCK FALSE
CONSTANTS
  As = {0}
  Bs = {0}
  MaxN = 0
  Bounds = {0}
  Kinds = {"C", "D"}
  Free = 999999
