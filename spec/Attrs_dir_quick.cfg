SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsDir
  MaxAttrs = 4
  MaxExt = 1
  NRecs = 2
  Lists = {0, 1}
  Insts = {0}
  Dirs = {TRUE, FALSE}
  Queries <- NoQueries
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
