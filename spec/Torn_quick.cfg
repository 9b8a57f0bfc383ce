SPECIFICATION Spec
CONSTANTS
  SectorCounts = {1, 2, 4, 8}
  MaxVersion = 2
  TailClasses = {"x", "own", "next"}
INVARIANTS Property Emit
CHECK_DEADLOCK FALSE
