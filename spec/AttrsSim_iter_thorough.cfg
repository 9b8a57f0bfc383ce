SPECIFICATION SimSpec
CONSTANTS
  Kinds <- KindsBig
  MaxAttrs = 18
  MaxExt = 9
  NRecs = 12
  Lists = {}
  Insts = {}
  Dirs = {}
  Queries <- NoQueries
  N = 8000
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
