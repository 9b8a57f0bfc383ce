SPECIFICATION Spec
CONSTANTS
  Units = 1
  Values = 1
  MaxLen = 1
  TriLen = 1
CHECK_DEADLOCK FALSE
