SPECIFICATION Spec
INVARIANTS Admitted Nearest Unique Joined
CHECK_DEADLOCK FALSE
