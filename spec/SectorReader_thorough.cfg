SPECIFICATION Spec
CONSTANTS
  SSs = {1, 2, 4}
  Sectors = 3
  Depth = 4
  Repaired = FALSE
INVARIANTS Contract Aligned Emit
CHECK_DEADLOCK FALSE
