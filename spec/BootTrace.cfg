SPECIFICATION Spec
CONSTANTS
  SectorSizes = {}
  SpcBytes = {}
  FrsBytes = {}
  Sectors = {}
  Lcns = {}
  Signatures = {}
CHECK_DEADLOCK FALSE
