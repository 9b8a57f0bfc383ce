SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsName
  MaxAttrs = 4
  MaxExt = 1
  NRecs = 2
  Lists = {0, 1, 2}
  Insts = {0, 1}
  Dirs = {FALSE}
  Queries <- NoQueries
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
