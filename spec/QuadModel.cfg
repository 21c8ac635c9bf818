SPECIFICATION Spec
CONSTANTS MaxC = 1
          MaxDeg = 5
INVARIANTS SimpsonExactCubic RombergExact Romberg1IsSimpson SwapSign RK4IsSimpson
CHECK_DEADLOCK FALSE
