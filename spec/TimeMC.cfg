SPECIFICATION Spec
INVARIANTS Steps FirstLast Drifts Gains Epochs
CHECK_DEADLOCK FALSE
