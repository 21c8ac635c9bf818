SPECIFICATION Spec
CONSTANT Miswired = FALSE
INVARIANTS Agrees Known Shallow BackgroundClean GrowthClean KernelsClean NoiseClean SpectraClean GammaGoverns TodayClean OwnBin
CHECK_DEADLOCK FALSE
