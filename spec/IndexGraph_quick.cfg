SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxKeys = 1
INVARIANT Bounded FailsOffTrees Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
