SPECIFICATION Spec
CONSTANTS
  MaxKeys = 5
  MaxNodes = 6
  MaxDepth = 5
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
