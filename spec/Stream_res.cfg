SPECIFICATION Spec
CONSTANTS
  MaxRuns = 3
  MaxLen = 2
  CU = 2
  BadMax = 0
  Kinds = {"res"}
  Sizes = {}
  Inits = {}
  Reads = {0, 1, 2, 3, 5, 8, 20}
  Back = {1, 2, 3, 5}
  Fwd = {0, 1, 2, 4, 7}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
