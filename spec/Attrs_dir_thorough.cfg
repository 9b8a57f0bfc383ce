SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsDir
  MaxAttrs = 5
  MaxExt = 2
  NRecs = 2
  Lists = {0, 1}
  Insts = {0, 1}
  Dirs = {TRUE, FALSE}
  Queries <- NoQueries
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
