SPECIFICATION Spec
CONSTANTS
  Chs = {2, 4}
  Times1 = {1, 2, 3, 4}
  Most1 = 8
  Vals <- SomeVals
  Widths = {0, 1, 2}
  RateWidths <- MoreRates
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Twice Ends Constant Alternating Mirrored Parts Others
PROPERTY Steps
