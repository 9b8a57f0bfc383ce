SPECIFICATION Spec
CONSTANTS
  Ratios <- MCRatios
  MaxRuns = 4
  MaxLen = 3
  Cuts = {0, 1, 2, 3, 5, 9}
  InitCuts = {0, 1, 2, 4}
  Holes = {TRUE, FALSE}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
