SPECIFICATION Spec
CONSTANTS
  Slots = {1,2,3,4,5,6}
  Types = {}
  ValLen = 0
  Items = 0
  Questions = 0
  Reads = {}
  Targets = {}
  FaultKinds = {}
  MaxIdx = 0
  MaxFaults = 0
  Depth = 0
  Clones = FALSE
CHECK_DEADLOCK FALSE
