SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsName
  MaxAttrs = 3
  MaxExt = 1
  NRecs = 2
  Lists = {0, 1}
  Insts = {0}
  Dirs = {FALSE}
  Queries <- NoQueries
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
