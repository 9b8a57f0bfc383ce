SPECIFICATION Spec
CONSTANTS
  SSs = {1, 4}
  Sectors = 3
  Depth = 3
  Repaired = FALSE
INVARIANTS Contract Aligned Emit
CHECK_DEADLOCK FALSE
