SPECIFICATION SimSpec
CONSTANTS
  N = 120
  SimRuns = 12
  Ratios = {}
  MaxRuns = 0
  MaxLen = 0
  Cuts = {}
  Holes = {}
  InitCuts = {}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
