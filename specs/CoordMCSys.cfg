SPECIFICATION Spec
CONSTANTS Triples <- Small
INVARIANTS Inverse Rotation Orthogonal Places Consistent
CHECK_DEADLOCK FALSE
