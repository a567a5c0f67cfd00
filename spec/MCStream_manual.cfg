SPECIFICATION MCSpec
CONSTANTS
  MaxLens = {99, 1, 2}
  Autos = {0}
  Keys = {0, 1, 2}
  Outcomes = {"item", "none", "raise"}
  OpenFails = FALSE
  Reads = 4
  Clients = {0, 1}
  Quota = 1
  Starts = 1
  Begun = TRUE
  Repertoire = {"start", "stop", "all", "drop"}
INVARIANTS Window Manual Ordered FailedEnds NotRunningUnlessOpen OneOwner LateReads OpenClosed Isolated Sequential CursorIsLast EndsOnlyStopped NothingStuck

CHECK_DEADLOCK FALSE
