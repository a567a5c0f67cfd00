INIT Init
NEXT Next
VIEW seen
ACTION_CONSTRAINT Emit
INVARIANT Window
INVARIANT Kept
PROPERTY NothingLost
PROPERTY InOrder
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLens = {0, 1, 100, 10000, 12000}
  Bursts = {1, 101, 12001}
  Drops = {1, 150}
  Sizes = {1, 120, 10001}
  Steps = {1, 7}
  Most = 24300
  Depth = 5
