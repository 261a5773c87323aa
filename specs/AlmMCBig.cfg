SPECIFICATION Spec
CONSTANTS LMax = 2 Depth = 4
INVARIANTS Packed Listed Known Twice
CHECK_DEADLOCK FALSE
