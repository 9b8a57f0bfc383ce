SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsData
  MaxAttrs = 3
  MaxExt = 2
  NRecs = 2
  Lists = {0, 1}
  Insts = {0}
  Dirs = {FALSE}
  Queries <- DataQueries
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
