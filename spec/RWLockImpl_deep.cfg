SPECIFICATION Spec
CONSTANTS
  T = {1, 2, 3, 4}
  K = 1
INVARIANTS Exclusive Reasons NoDeadlock
PROPERTIES Refines
CHECK_DEADLOCK FALSE
