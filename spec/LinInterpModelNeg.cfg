SPECIFICATION Spec
CONSTANTS MaxX = 4
          MaxN = 4
          SideFix = FALSE
          Emit = FALSE
INVARIANTS AlgorithmIsInterpolant HitsNodes
CHECK_DEADLOCK FALSE
