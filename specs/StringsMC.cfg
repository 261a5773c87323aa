CONSTANTS
 MaxTerms = 2
 Top = 4
 MaxSpecs = 2
SPECIFICATION Spec
INVARIANTS ChansCover TermsOrdered AllIsAll PrmsLast
CHECK_DEADLOCK FALSE
