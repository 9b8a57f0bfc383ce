SPECIFICATION Spec
CONSTANTS
  Years <- QYears
  Days = {1, 15, 28, 29}
  Secs = {0, 20169, 20170, 20171, 86399}
  Ticks = {0, 1, 9551615, 9551616, 9999999}
  Subs = {0, 99}
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
