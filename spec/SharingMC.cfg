SPECIFICATION Spec
INVARIANT Apart
INVARIANT Noticed
CHECK_DEADLOCK FALSE
