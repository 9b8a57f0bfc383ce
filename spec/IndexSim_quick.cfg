SPECIFICATION SimSpec
CONSTANTS
  MaxKeys = 180
  MaxNodes = 130
  MaxDepth = 40
  NodeKeys = 12
  Asks = 6
  N = 160
INVARIANTS SimContract SimOneWay Emit
CHECK_DEADLOCK FALSE
