SPECIFICATION SimSpec
CONSTANTS
  MaxRuns = 1
  MaxLen = 1
  CU = 2
  BadMax = 0
  Kinds = {"list"}
  Sizes = {}
  Inits = {}
  Reads = {}
  Back = {}
  Fwd = {}
  N = 6000
  D = 100
  SimRuns = 18
INVARIANTS SimAgree SimEmit
CHECK_DEADLOCK FALSE
