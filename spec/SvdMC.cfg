SPECIFICATION Spec
INVARIANTS Product Turning Decomposed Rank Solved Covariance
CHECK_DEADLOCK FALSE
