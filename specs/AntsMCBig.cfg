CONSTANTS NA = 3
 MaxTerms = 3
SPECIFICATION Spec
INVARIANTS RoundTrip SelMeans AllIsAll PolOneToOne
CHECK_DEADLOCK FALSE
