SPECIFICATION Spec
CONSTANTS
  Units = 3
  Values = 3
  MaxLen = 3
  TriLen = 2
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
