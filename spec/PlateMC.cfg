SPECIFICATION Spec
INVARIANTS Carries Inverts Fits Predicts Good
CHECK_DEADLOCK FALSE
