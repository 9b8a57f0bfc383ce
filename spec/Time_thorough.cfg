SPECIFICATION Spec
CONSTANTS
  Years <- TYears
  Days = {1, 28, 29}
  Secs = {0, 3600, 20169, 20170, 86399}
  Ticks = {0, 1, 9551615, 9551616, 9999999}
  Subs = {0, 1, 50, 99}
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
