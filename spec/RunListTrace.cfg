SPECIFICATION Spec
CONSTANTS
  FirstLens = {}
  FirstDels = {}
  LenWidths = {}
  DelWidths = {}
  Ks = {}
  MaxElems = 0
  Tails = {}
CHECK_DEADLOCK FALSE
