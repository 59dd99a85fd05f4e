SPECIFICATION Spec
INVARIANTS Counts Anchors Inverse Rounded Aligned Status
CHECK_DEADLOCK FALSE
