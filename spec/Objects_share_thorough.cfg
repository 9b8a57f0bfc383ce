SPECIFICATION Spec
CONSTANTS
  Slots = {1,2,3}
  Types = {"val","it","pure"}
  ValLen = 3
  Items = 2
  Questions = 1
  Reads = {1,2}
  Targets = {0,2}
  FaultKinds = {"short","int","fail","zero"}
  MaxIdx = 0
  MaxFaults = 0
  Depth = 6
  Clones = TRUE
VIEW View
INVARIANTS Emit
CHECK_DEADLOCK FALSE
