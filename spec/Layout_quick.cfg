SPECIFICATION Spec
CONSTANTS
  Types = {"std","name","volinfo","volname","objid","listent","record","attr","entry","root","node"}
  Pats = {"walk","one","name","type","entry"}
  Vals = {1, 15, 128, 255}
INVARIANTS Contract Inside Disjoint Emit
CHECK_DEADLOCK FALSE
