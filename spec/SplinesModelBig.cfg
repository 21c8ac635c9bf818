SPECIFICATION Spec
CONSTANTS MaxX = 8
 MaxN = 7
INVARIANTS SquareSystem Interpolates Reproduces
CHECK_DEADLOCK FALSE
