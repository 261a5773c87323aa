CONSTANTS NA = 3
 MaxTerms = 2
SPECIFICATION Spec
INVARIANTS RoundTrip SelMeans AllIsAll PolOneToOne
CHECK_DEADLOCK FALSE
