INIT GInit
NEXT GNext
CONSTANTS
  Top = 3
  Los = {0, 1, 2, 3, 4, 5}
  His = {0, 1, 2, 3, 4, 5}
  Steps = {1, 2, 3}
  Ns = {1, 2, 3, 5}
  Mode = "read"
INVARIANTS Emit ReadIsSequential CursorMoves RangeIsInterval EndsAreEnds
CHECK_DEADLOCK FALSE
