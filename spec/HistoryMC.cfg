SPECIFICATION Spec
INVARIANT Independent
INVARIANT Noticed
CHECK_DEADLOCK FALSE
