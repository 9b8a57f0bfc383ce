SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsData
  MaxAttrs = 4
  MaxExt = 2
  NRecs = 3
  Lists = {0, 1, 2}
  Insts = {0, 1}
  Dirs = {FALSE}
  Queries <- DataQueries
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
