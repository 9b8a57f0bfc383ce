SPECIFICATION SimSpec
CONSTANTS
  MaxKeys = 300
  MaxNodes = 250
  MaxDepth = 60
  NodeKeys = 12
  Asks = 6
  N = 1000
INVARIANTS SimContract SimOneWay Emit
CHECK_DEADLOCK FALSE
