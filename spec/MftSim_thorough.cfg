SPECIFICATION SimSpec
CONSTANTS
  N = 4000
  SimRuns = 14
  Ratios = {}
  MaxRuns = 0
  MaxLen = 0
  Cuts = {}
  Holes = {}
  InitCuts = {}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
