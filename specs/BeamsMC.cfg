SPECIFICATION Spec
CONSTANTS
 MaxOps = 2
INVARIANTS PointsUp Turned Notations Even Sharp Memory Chans
CHECK_DEADLOCK FALSE
