SPECIFICATION Spec
INVARIANTS Positions
CHECK_DEADLOCK FALSE
