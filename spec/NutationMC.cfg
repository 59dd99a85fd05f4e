SPECIFICATION Spec
INVARIANTS Bounds Models Matrix Angles Clocks
PROPERTIES Steady
CHECK_DEADLOCK FALSE
