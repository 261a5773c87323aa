CONSTANTS
  Files = {"a"}
  WH = {"w"}
  RH = {"r"}
  Names = {"x", "y"}
  Vals = {1, 2}
  Ants = {0}
  MaxRec = 2
  MaxSet = 4
  MaxSel = 0
  MaxHandles = 2
  MaxAdds = 2
  SelKinds = {}
SPECIFICATION Spec
INVARIANTS DiskIsLog WriterIsLog ReadsAreSelection
PROPERTIES AppendOnly Independent
CHECK_DEADLOCK FALSE
