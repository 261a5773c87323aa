SPECIFICATION Spec
CONSTANTS
  Most = 3
  Long = 6
INVARIANTS TypeOK Turned East Wraps
PROPERTIES Steps
VIEW View
CHECK_DEADLOCK FALSE
