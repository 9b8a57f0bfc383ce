SPECIFICATION SimSpec
CONSTANTS
  Kinds <- KindsBig
  MaxAttrs = 14
  MaxExt = 7
  NRecs = 8
  Lists = {}
  Insts = {}
  Dirs = {}
  Queries <- NoQueries
  N = 300
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
