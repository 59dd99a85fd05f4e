SPECIFICATION Spec
INVARIANTS OnItsLine Perspective Stays
CHECK_DEADLOCK FALSE
