SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsVol
  MaxAttrs = 6
  MaxExt = 1
  NRecs = 1
  Lists = {0}
  Insts = {0}
  Dirs = {FALSE}
  Queries <- NoQueries
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
