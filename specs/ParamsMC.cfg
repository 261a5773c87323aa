SPECIFICATION Spec
CONSTANTS
 MaxSets = 2
 Vals = {"1"}
 Depth = 1
INVARIANTS LastSet NothingMore Restores GroupIsEach TreeLaws
CHECK_DEADLOCK FALSE
