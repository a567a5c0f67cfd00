SPECIFICATION FairSpec
CONSTANTS
  MaxLens = {1}
  Autos = {0}
  Keys = {0, 1}
  Outcomes = {"item", "raise"}
  OpenFails = TRUE
  Reads = 2
  Clients = {0, 1}
  Quota = 1
  Starts = 2
  Begun = TRUE
  Repertoire = {"start", "stop", "next", "drop", "isrun", "block"}
INVARIANTS Window Manual Ordered OneOwner LateReads NothingStuck
PROPERTIES EveryCallReturns StoppedEnds FailStops
CHECK_DEADLOCK FALSE
