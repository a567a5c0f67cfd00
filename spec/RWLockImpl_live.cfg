SPECIFICATION FairSpec
CONSTANTS
  T = {1, 2, 3}
  K = 1
PROPERTIES EveryoneEnters
CHECK_DEADLOCK FALSE
