SPECIFICATION Spec
CONSTANTS
  FirstLens = {1, 5, 200}
  FirstDels = {0, 16}
  LenWidths = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15}
  DelWidths = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15}
  Ks = {512, 4096, 2097152}
  MaxElems = 2
  Tails = {"mark", "junk", "end", "cut"}
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
