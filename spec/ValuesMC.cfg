SPECIFICATION Spec
INVARIANTS Seen Complete
PROPERTY OnlyThat
CHECK_DEADLOCK FALSE
