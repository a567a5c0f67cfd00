INIT GInit
NEXT GNext
CONSTANTS
  Top = 4
  Los = {0, 1, 2, 3, 4, 5, 6}
  His = {0, 1, 2, 3, 4, 5, 6}
  Steps = {1, 2, 3, 4}
  Ns = {1, 2, 3, 4, 6}
  Mode = "range"
INVARIANTS Emit ReadIsSequential CursorMoves RangeIsInterval EndsAreEnds
CHECK_DEADLOCK FALSE
