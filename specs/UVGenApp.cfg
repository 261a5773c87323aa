CONSTANTS
  Len0 = 60
  Kinds <- KApp
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
