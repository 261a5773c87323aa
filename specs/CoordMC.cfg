SPECIFICATION Spec
CONSTANTS Triples <- Big
INVARIANTS Inverse Overhead West
CHECK_DEADLOCK FALSE
