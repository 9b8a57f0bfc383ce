SPECIFICATION Spec
CONSTANTS
  MaxKeys = 4
  MaxNodes = 5
  MaxDepth = 4
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
