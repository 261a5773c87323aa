SPECIFICATION Spec
CONSTANTS
  Values = {10000, 20000}
  Iters = 2
  Decs = {1, 2}
  Snapping = {TRUE, FALSE}
  Deep = FALSE
INVARIANTS Accepted Caught Partition Daemons
CHECK_DEADLOCK FALSE
