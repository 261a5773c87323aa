CONSTANTS
  Files = {"a"}
  WH = {"w", "v"}
  RH = {"r"}
  Names = {"x"}
  Vals = {1, 2}
  Ants = {0}
  MaxRec = 3
  MaxSet = 2
  MaxSel = 0
  MaxHandles = 4
  MaxAdds = 2
  SelKinds = {}
SPECIFICATION Spec
INVARIANTS DiskIsLog WriterIsLog ReadsAreSelection
PROPERTIES AppendOnly Independent
CHECK_DEADLOCK FALSE
