SPECIFICATION Spec
INVARIANTS WellFormed NoRepeat Complete Repeats Ends
CHECK_DEADLOCK FALSE
