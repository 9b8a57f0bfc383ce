SPECIFICATION Spec
CONSTANTS
  Ratios <- MCRatios
  MaxRuns = 3
  MaxLen = 3
  Cuts = {0, 1, 2, 5}
  InitCuts = {0, 3}
  Holes = {TRUE, FALSE}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
