SPECIFICATION Spec
INVARIANTS Integral Constants Inverse Dispersion Mass Tabulated
CHECK_DEADLOCK FALSE
