CONSTANTS
  Len0 = 60
  Kinds <- KAll
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
