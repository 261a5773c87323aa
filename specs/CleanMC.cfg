SPECIFICATION Spec
CONSTANTS D1 = 3 D2 = 1 Top = 1 GDs = {1, 2} MaxIters = {3} Us = {1} Tols = {"none", "any"}
INVARIANTS Laws Some Point
CHECK_DEADLOCK FALSE
