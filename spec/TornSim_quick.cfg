SPECIFICATION SimSpec
CONSTANTS
  SectorCounts = {}
  MaxVersion = 2
  TailClasses = {}
  N = 40
INVARIANTS Property Emit
CHECK_DEADLOCK FALSE
