CONSTANTS
  MaxRec = 3
  Names = {"x"}
  Sels = {"all", "decimate"}
SPECIFICATION Spec
INVARIANTS Whole Records Items Refused InputUnchanged Identity
CHECK_DEADLOCK FALSE
