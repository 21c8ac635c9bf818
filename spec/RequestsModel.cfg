SPECIFICATION Spec
INVARIANTS Decided Sane
CHECK_DEADLOCK FALSE
