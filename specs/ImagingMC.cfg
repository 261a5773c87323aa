SPECIFICATION Spec
CONSTANTS
  Most = 2
  Few = FALSE
PROPERTIES Steps
VIEW View
CHECK_DEADLOCK FALSE
