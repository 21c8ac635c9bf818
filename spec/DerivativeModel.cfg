SPECIFICATION Spec
INVARIANTS Exact ExpOK SidesOK KinkOK
CHECK_DEADLOCK FALSE
