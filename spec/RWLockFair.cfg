INIT Init
NEXT Next
INVARIANT FewOvertake
CHECK_DEADLOCK FALSE
CONSTANTS
  T = {1, 2, 3, 4}
  K = 1
