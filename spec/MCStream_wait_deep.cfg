SPECIFICATION MCSpec
CONSTANTS
  MaxLens = {99, 1}
  Autos = {0, 1}
  Keys = {0, 1, 2}
  Outcomes = {"item", "none", "raise"}
  OpenFails = FALSE
  Reads = 3
  Clients = {0, 1}
  Quota = 4
  Starts = 1
  Begun = TRUE
  Repertoire = {"start", "stop", "mk", "iter", "block", "next"}
INVARIANTS Window Manual Ordered FailedEnds NotRunningUnlessOpen OneOwner LateReads OpenClosed Isolated Sequential CursorIsLast EndsOnlyStopped NothingStuck

CHECK_DEADLOCK FALSE
