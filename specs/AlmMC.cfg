SPECIFICATION Spec
CONSTANTS LMax = 1 Depth = 4
INVARIANTS Packed Listed Known Twice
CHECK_DEADLOCK FALSE
