SPECIFICATION Spec
CONSTANTS
  MaxRuns = 3
  MaxLen = 2
  CU = 2
  BadMax = 3
  Kinds = {"list"}
  Sizes = {"zero", "mid", "short"}
  Inits = {"zero", "mid", "short"}
  Reads = {0, 1, 2, 3, 5, 20}
  Back = {1, 3}
  Fwd = {0, 1, 2, 4}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
