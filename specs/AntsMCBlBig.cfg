CONSTANTS NA = 600
 MaxTerms = 0
SPECIFICATION Spec
INVARIANTS RoundTrip SelMeans AllIsAll PolOneToOne
CHECK_DEADLOCK FALSE
