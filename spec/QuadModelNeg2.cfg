SPECIFICATION Spec
CONSTANTS MaxC = 1
          MaxDeg = 4
INVARIANTS RombergTooGood
CHECK_DEADLOCK FALSE
