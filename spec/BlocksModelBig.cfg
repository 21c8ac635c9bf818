SPECIFICATION Spec
CONSTANTS MaxDim = 3
          MaxFree = 3
INVARIANTS ProductAgrees VectorAgrees DetAgrees CofAgrees SolveAgrees
CHECK_DEADLOCK FALSE
