SPECIFICATION Spec
CONSTANTS
  Most = 5
  Long = 9
INVARIANTS TypeOK Turned East Wraps
PROPERTIES Steps
VIEW View
CHECK_DEADLOCK FALSE
