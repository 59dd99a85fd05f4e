SPECIFICATION Spec
INVARIANTS Reorient Euler AxialOf Walk Motion
CHECK_DEADLOCK FALSE
