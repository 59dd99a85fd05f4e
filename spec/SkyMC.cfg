SPECIFICATION Spec
INVARIANTS AnglesStay Returns Admitted ETermsSmall Agreement
CHECK_DEADLOCK FALSE
