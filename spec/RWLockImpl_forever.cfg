SPECIFICATION FairSpec
CONSTANTS
  T = {1, 2, 3}
  K = 0
INVARIANTS Exclusive Reasons
PROPERTIES WritersEnter Refines
CHECK_DEADLOCK FALSE
