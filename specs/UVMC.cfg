CONSTANTS
  Files = {"a", "b"}
  WH = {"w", "v"}
  RH = {"r"}
  Names = {"x"}
  Vals = {1}
  Ants = {0}
  MaxRec = 2
  MaxSet = 2
  MaxSel = 0
  MaxHandles = 3
  MaxAdds = 2
  SelKinds = {}
SPECIFICATION Spec
INVARIANTS DiskIsLog WriterIsLog ReadsAreSelection
PROPERTIES AppendOnly Independent
CHECK_DEADLOCK FALSE
