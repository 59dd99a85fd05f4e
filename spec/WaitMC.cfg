SPECIFICATION Spec
INVARIANT Kept
INVARIANT Noticed
CHECK_DEADLOCK FALSE
