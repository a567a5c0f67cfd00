SPECIFICATION MCSpec
CONSTANTS
  MaxLens = {1}
  Autos = {1}
  Keys = {0}
  Outcomes = {"item"}
  OpenFails = TRUE
  Reads = 2
  Clients = {0, 1}
  Quota = 4
  Starts = 2
  Begun = FALSE
  Repertoire = {"start", "stop", "mk", "attach", "sbnext", "stopped", "info"}
INVARIANTS Window Manual Ordered FailedEnds NotRunningUnlessOpen OneOwner LateReads OpenClosed Isolated Sequential CursorIsLast EndsOnlyStopped NothingStuck

CHECK_DEADLOCK FALSE
