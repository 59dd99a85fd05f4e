SPECIFICATION Spec
INVARIANTS Earth1 Moon1
CHECK_DEADLOCK FALSE
