SPECIFICATION Spec
CONSTANTS
  MaxRuns = 4
  MaxLen = 2
  CU = 2
  BadMax = 3
  Kinds = {"nr", "run"}
  Sizes = {"zero", "mid", "short"}
  Inits = {"zero", "mid", "short"}
  Reads = {0, 1, 2, 3, 4, 5, 7, 20}
  Back = {1, 3}
  Fwd = {0, 1, 2, 4}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
