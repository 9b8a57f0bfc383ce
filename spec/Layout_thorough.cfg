SPECIFICATION Spec
CONSTANTS
  Types = {"std","name","volinfo","volname","objid","listent","record","attr","entry","root","node"}
  Pats = {"walk","one","name","type","entry"}
  Vals = {0, 1, 2, 4, 8, 15, 16, 32, 64, 127, 128, 129, 240, 254, 255}
INVARIANTS Contract Inside Disjoint Emit
CHECK_DEADLOCK FALSE
