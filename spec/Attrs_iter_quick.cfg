SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsIter
  MaxAttrs = 3
  MaxExt = 2
  NRecs = 3
  Lists = {0, 1, 2}
  Insts = {0, 1}
  Dirs = {FALSE}
  Queries <- NoQueries
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
