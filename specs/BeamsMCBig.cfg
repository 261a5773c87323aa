SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
INVARIANTS PointsUp Turned Notations Even Sharp Memory Chans
CHECK_DEADLOCK FALSE
