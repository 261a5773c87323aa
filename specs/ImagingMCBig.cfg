SPECIFICATION Spec
CONSTANTS
  Most = 4
  Few = TRUE
PROPERTIES Steps
VIEW View
CHECK_DEADLOCK FALSE
