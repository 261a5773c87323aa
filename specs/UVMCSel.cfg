CONSTANTS
  Files = {"a"}
  WH = {"w"}
  RH = {"r"}
  Names = {"x"}
  Vals = {1}
  Ants = {0, 1}
  MaxRec = 2
  MaxSet = 0
  MaxSel = 2
  MaxHandles = 2
  MaxAdds = 0
  SelKinds = {"antennae", "time", "decimate", "visibility", "increment", "on", "and", "or", "clear", "auto"}
SPECIFICATION Spec
INVARIANTS DiskIsLog WriterIsLog ReadsAreSelection
PROPERTIES AppendOnly Independent
CHECK_DEADLOCK FALSE
