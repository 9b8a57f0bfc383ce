SPECIFICATION Spec
CONSTANTS
  Singles = TRUE
  Pairs = TRUE
  Cross = TRUE
  Small = 300
  Around = 40
INVARIANT Sane Emit
CHECK_DEADLOCK FALSE
