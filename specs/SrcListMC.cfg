SPECIFICATION Spec
CONSTANTS
  Hours = {0, 5, 12, 23}
  Decs = {0, 20, 60}
  Steps = 2
INVARIANTS Split Out Self Wider Undated
PROPERTIES Narrower
CHECK_DEADLOCK FALSE
