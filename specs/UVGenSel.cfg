CONSTANTS
  Len0 = 60
  Kinds <- KSel
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
