SPECIFICATION Spec
CONSTANTS
  Kinds <- KindsDeep
  MaxAttrs = 4
  MaxExt = 3
  NRecs = 3
  Lists = {1, 2}
  Insts = {0, 1}
  Dirs = {FALSE}
  Queries <- NoQueries
INVARIANTS Iteration Emit
CHECK_DEADLOCK FALSE
