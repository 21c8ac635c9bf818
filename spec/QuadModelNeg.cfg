SPECIFICATION Spec
CONSTANTS MaxC = 1
          MaxDeg = 4
INVARIANTS SimpsonExactQuartic
CHECK_DEADLOCK FALSE
