SPECIFICATION Spec
CONSTANTS
  FirstLens = {1, 5}
  FirstDels = {0, 16}
  LenWidths = {0, 1, 2, 8, 9}
  DelWidths = {0, 1, 3, 8, 9}
  Ks = {512, 65536}
  MaxElems = 2
  Tails = {"mark", "junk", "end", "cut"}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
