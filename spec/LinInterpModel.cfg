SPECIFICATION Spec
CONSTANTS MaxX = 6
          MaxN = 5
          SideFix = TRUE
          Emit = TRUE
INVARIANTS AlgorithmIsInterpolant HitsNodes
CHECK_DEADLOCK FALSE
