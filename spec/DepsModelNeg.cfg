SPECIFICATION Spec
CONSTANT Miswired = TRUE
INVARIANT BackgroundClean
CHECK_DEADLOCK FALSE
