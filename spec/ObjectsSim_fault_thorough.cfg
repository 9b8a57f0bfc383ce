SPECIFICATION SimSpec
CONSTANTS
  N = 3000
  Slots = {1,2,3,4,5,6}
  Types = {"val","it","pure"}
  ValLen = 3
  Items = 3
  Questions = 3
  Reads = {1,2}
  Targets = {0,2}
  FaultKinds = {"short","int","fail","zero"}
  MaxIdx = 4
  MaxFaults = 9
  Depth = 80
  Clones = TRUE
INVARIANTS Alone Recovers Quiet SimEmit
CHECK_DEADLOCK FALSE
