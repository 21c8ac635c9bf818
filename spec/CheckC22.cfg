SPECIFICATION Spec
INVARIANT Conforms
CONSTANT Violated <- V
CONSTANT Miswired = FALSE
CHECK_DEADLOCK FALSE
