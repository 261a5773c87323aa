SPECIFICATION Spec
CONSTANTS Triples <- Huge
INVARIANTS Inverse Overhead West
CHECK_DEADLOCK FALSE
