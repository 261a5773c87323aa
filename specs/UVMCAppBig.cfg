CONSTANTS
  Files = {"a"}
  WH = {"w", "v"}
  RH = {"r"}
  Names = {"x"}
  Vals = {1, 2}
  Ants = {0}
  MaxRec = 3
  MaxSet = 3
  MaxSel = 0
  MaxHandles = 5
  MaxAdds = 3
  SelKinds = {}
SPECIFICATION Spec
INVARIANTS DiskIsLog WriterIsLog ReadsAreSelection
PROPERTIES AppendOnly Independent
CHECK_DEADLOCK FALSE
