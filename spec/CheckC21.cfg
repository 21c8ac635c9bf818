SPECIFICATION Spec
INVARIANT Conforms
CONSTANT Violated <- VC
CHECK_DEADLOCK FALSE
