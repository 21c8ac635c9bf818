SPECIFICATION Spec
CONSTANTS MaxV = 1
INVARIANTS WrongSign
CHECK_DEADLOCK FALSE
