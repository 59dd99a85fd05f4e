SPECIFICATION Spec
INVARIANTS OneEnd NoPivot Agrees Admitted AdmittedStuck
CHECK_DEADLOCK FALSE
