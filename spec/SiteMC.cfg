SPECIFICATION Spec
INVARIANTS Shape Carried Small Adopted
CHECK_DEADLOCK FALSE
