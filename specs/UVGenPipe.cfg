CONSTANTS
  Len0 = 60
  Kinds <- KPipe
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
