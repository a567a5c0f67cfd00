SPECIFICATION MCSpec
CONSTANTS
  MaxLens = {1}
  Autos = {1}
  Keys = {0}
  Outcomes = {"item", "none", "raise"}
  OpenFails = TRUE
  Reads = 3
  Clients = {0, 1}
  Quota = 3
  Starts = 3
  Begun = FALSE
  Repertoire = {"start", "stop", "isrun", "sinfo", "mk"}
INVARIANTS Window Manual Ordered FailedEnds NotRunningUnlessOpen OneOwner LateReads OpenClosed Isolated Sequential CursorIsLast EndsOnlyStopped NothingStuck

CHECK_DEADLOCK FALSE
