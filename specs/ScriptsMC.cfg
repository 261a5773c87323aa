SPECIFICATION Spec
CONSTANTS
  Most = 4
INVARIANTS TypeOK Band Orders
PROPERTIES Steps
VIEW View
CHECK_DEADLOCK FALSE
