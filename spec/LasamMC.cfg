SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT WaterConserved
INVARIANT RunoffRouted
INVARIANT ProfileOrdered
INVARIANT ProfileConsistent
INVARIANT SurfaceBounds
INVARIANT EvapBounds
INVARIANT PercBounds
INVARIANT TimeAdvances
INVARIANT FactorsBounded
