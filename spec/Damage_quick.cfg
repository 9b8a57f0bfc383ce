SPECIFICATION Spec
CONSTANTS
  Singles = TRUE
  Pairs = TRUE
  Cross = TRUE
  Small = 72
  Around = 16
INVARIANT Sane Emit
CHECK_DEADLOCK FALSE
