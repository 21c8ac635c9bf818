SPECIFICATION Spec
CONSTANTS MaxX = 6
 MaxN = 6
INVARIANTS SquareSystem Interpolates Reproduces
CHECK_DEADLOCK FALSE
