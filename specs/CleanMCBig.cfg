SPECIFICATION Spec
CONSTANTS D1 = 2 D2 = 2 Top = 1 GDs = {2} MaxIters = {4} Us <- Signs Tols = {"none", "same"}
INVARIANTS Laws Some Point
CHECK_DEADLOCK FALSE
