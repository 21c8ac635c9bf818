SPECIFICATION Spec
INVARIANTS Normalised Budget Conservation SlopeOfH Friction EdSDistance EdSGrowth Flatness DistanceDecreases
CHECK_DEADLOCK FALSE
