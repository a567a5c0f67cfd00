SPECIFICATION MCSpec
CONSTANTS
  MaxLens = {99, 2}
  Autos = {1}
  Keys = {0, 1, 2}
  Outcomes = {"item"}
  OpenFails = FALSE
  Reads = 4
  Clients = {0, 1}
  Quota = 1
  Starts = 1
  Begun = TRUE
  Repertoire = {"read", "peek", "tail", "range", "head"}
INVARIANTS Window Manual Ordered FailedEnds NotRunningUnlessOpen OneOwner LateReads OpenClosed Isolated Sequential CursorIsLast EndsOnlyStopped NothingStuck

CHECK_DEADLOCK FALSE
