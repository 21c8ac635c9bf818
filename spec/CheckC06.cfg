SPECIFICATION Spec
INVARIANT Conforms
CONSTANT Violated <- V
CHECK_DEADLOCK FALSE
