SPECIFICATION Spec
CONSTANTS MaxDim = 2
          MaxFree = 4
INVARIANTS ProductAgrees VectorAgrees DetAgrees CofAgrees SolveAgrees
CHECK_DEADLOCK FALSE
