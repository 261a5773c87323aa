CONSTANTS
  MaxRec = 2
  Names = {"x", "y"}
  Sels = {"all", "auto", "decimate", "antennae"}
SPECIFICATION Spec
INVARIANTS Whole Records Items Refused InputUnchanged Identity
CHECK_DEADLOCK FALSE
