SPECIFICATION Spec
CONSTANTS MaxX = 8
          MaxN = 8
          SideFix = TRUE
          Emit = TRUE
INVARIANTS AlgorithmIsInterpolant HitsNodes
CHECK_DEADLOCK FALSE
