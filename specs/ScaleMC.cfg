CONSTANTS K = 37
 Max = 150
SPECIFICATION Spec
INVARIANTS OneStep Fits ZeroIsZero Extremes
CHECK_DEADLOCK FALSE
