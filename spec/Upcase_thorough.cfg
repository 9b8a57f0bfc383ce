SPECIFICATION Spec
CONSTANTS
  Units = 4
  Values = 4
  MaxLen = 3
  TriLen = 2
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
