SPECIFICATION Spec
CONSTANTS
 MaxOps = 2
 Qs = {0, 1}
 Lats <- TwoLats
INVARIANTS Hermitian Additive Closure Proper PointsUp Undoes Memory
CHECK_DEADLOCK FALSE
