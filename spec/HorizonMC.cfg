SPECIFICATION Spec
INVARIANTS Rigid Rates Mount RoundTrip Complete
CHECK_DEADLOCK FALSE
