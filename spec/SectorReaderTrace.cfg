SPECIFICATION Spec
CONSTANTS
  SSs = {}
  Sectors = 0
  Depth = 0
  Repaired = FALSE
CHECK_DEADLOCK FALSE
