SPECIFICATION Spec
CONSTANTS
  SSs = {1, 2, 4}
  Sectors = 4
  Depth = 3
  Repaired = TRUE
INVARIANTS Contract Aligned 
CHECK_DEADLOCK FALSE
