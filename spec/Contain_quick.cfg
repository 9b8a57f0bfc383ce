SPECIFICATION Spec
CONSTANTS
  Parts = {"record","attr","nr","list","root","node","entry","value"}
  Dense = TRUE
INVARIANTS Inside Nested Final Fits Emit
CHECK_DEADLOCK FALSE
