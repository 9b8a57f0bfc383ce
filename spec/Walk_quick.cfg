SPECIFICATION Spec
CONSTANT Bounds = {0, 1, 2, 5}
INVARIANT Bounded
PROPERTY Reached EndIsFinal
CHECK_DEADLOCK FALSE
