SPECIFICATION Spec
INVARIANTS Places Numbers ThereAndBack
CHECK_DEADLOCK FALSE
