SPECIFICATION Spec
CONSTANTS
  T = {1, 2, 3}
  K = 2
INVARIANTS Exclusive Reasons NoDeadlock
PROPERTIES Refines
CHECK_DEADLOCK FALSE
