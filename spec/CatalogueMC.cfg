SPECIFICATION Spec
INVARIANTS ById ByNumber
CHECK_DEADLOCK FALSE
