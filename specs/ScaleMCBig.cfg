CONSTANTS K = 127
 Max = 1000
SPECIFICATION Spec
INVARIANTS OneStep Fits ZeroIsZero Extremes
CHECK_DEADLOCK FALSE
