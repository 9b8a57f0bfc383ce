SPECIFICATION SimSpec
CONSTANTS
  SectorCounts = {}
  MaxVersion = 2
  TailClasses = {}
  N = 400
INVARIANTS Property Emit
CHECK_DEADLOCK FALSE
