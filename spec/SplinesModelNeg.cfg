SPECIFICATION Spec
CONSTANTS MaxX = 4
 MaxN = 4
INVARIANTS TooStrong
CHECK_DEADLOCK FALSE
