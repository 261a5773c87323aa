SPECIFICATION Spec
CONSTANTS
  Hours = {0, 5, 12, 20}
  Decs = {0, 20, 60}
  Steps = 3
INVARIANTS Split Out Self Wider Undated
PROPERTIES Narrower
CHECK_DEADLOCK FALSE
