INIT Init
NEXT Next
VIEW state
ACTION_CONSTRAINT Emit
INVARIANTS InOrder NoneOnlyAtEnd
PROPERTIES Counted OneRequestPerOpening
CHECK_DEADLOCK FALSE
CONSTANTS
  Lens = {0, 1, 2, 5, 8}
  Chunks = {0, 1, 2, 3, 5, 9}
  Methods = {"GET", "POST", "PUT", "get", "DELETE"}
  Formats = {"length", "chunked", "close"}
  MaxOpens = 2
