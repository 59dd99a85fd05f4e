SPECIFICATION Spec
INVARIANT AsAlone
CHECK_DEADLOCK FALSE
