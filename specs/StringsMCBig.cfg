CONSTANTS
 MaxTerms = 3
 Top = 4
 MaxSpecs = 3
SPECIFICATION Spec
INVARIANTS ChansCover TermsOrdered AllIsAll PrmsLast
CHECK_DEADLOCK FALSE
