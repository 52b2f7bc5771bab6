SPECIFICATION Spec
INVARIANTS Monotone InUnit OneLaw DensityIntegrates Memoryless MomentLaws DefaultsNamed EveryFamily
CHECK_DEADLOCK FALSE
