SPECIFICATION Spec
CONSTANTS
  Years = {}
  Days = {}
  Secs = {}
  Ticks = {}
  Subs = {}
CHECK_DEADLOCK FALSE
