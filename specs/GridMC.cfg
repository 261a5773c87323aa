SPECIFICATION Spec
CONSTANTS Dims = {1, 2, 4} Places = {0, 1, 3} Wvals = {0, 1, 3} MaxPut = 2
INVARIANTS Shown Free Flatly Real
VIEW View
CHECK_DEADLOCK FALSE
