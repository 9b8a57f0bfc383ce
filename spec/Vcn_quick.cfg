SPECIFICATION Spec
CONSTANTS
  Shapes <- QShapes
  MaxRecs = 2
  Far <- MCFar
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
