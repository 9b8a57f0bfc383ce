SPECIFICATION Spec
CONSTANTS
  Shapes <- TShapes
  MaxRecs = 3
  Far <- MCFar
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
