SPECIFICATION Spec
CONSTANTS
  Most = 5
INVARIANTS TypeOK Band Orders
PROPERTIES Steps
VIEW View
CHECK_DEADLOCK FALSE
