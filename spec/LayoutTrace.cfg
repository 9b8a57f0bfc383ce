SPECIFICATION Spec
CONSTANTS
  Types = {}
  Pats = {}
  Vals = {}
CHECK_DEADLOCK FALSE
