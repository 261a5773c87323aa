SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
 Qs = {0, 1, 2, 3}
 Lats <- AllLats
INVARIANTS Hermitian Additive Closure Proper PointsUp Undoes Memory
CHECK_DEADLOCK FALSE
