SPECIFICATION Spec
CONSTANT Bounds = {}
INVARIANT BoundedT
CHECK_DEADLOCK FALSE
