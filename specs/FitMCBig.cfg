SPECIFICATION Spec
CONSTANTS
  Values = {10000, 15000, 20000}
  Iters = 2
  Decs = {1, 2, 3}
  Snapping = {TRUE, FALSE}
  Deep = TRUE
INVARIANTS Accepted Caught Partition Daemons
CHECK_DEADLOCK FALSE
