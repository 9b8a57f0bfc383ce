SPECIFICATION Spec
CONSTANTS
  Slots = {1}
  Types = {"val","it","pure"}
  ValLen = 3
  Items = 2
  Questions = 3
  Reads = {1,2}
  Targets = {0,2}
  FaultKinds = {"short","int","fail","zero"}
  MaxIdx = 4
  MaxFaults = 2
  Depth = 4
  Clones = FALSE
VIEW View
INVARIANTS Emit
CHECK_DEADLOCK FALSE
