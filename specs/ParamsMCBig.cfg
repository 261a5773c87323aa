SPECIFICATION Spec
CONSTANTS
 MaxSets = 3
 Vals = {"1"}
 Depth = 2
INVARIANTS LastSet NothingMore Restores GroupIsEach TreeLaws
CHECK_DEADLOCK FALSE
