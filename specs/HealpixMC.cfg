SPECIFICATION Spec
CONSTANTS Sides = {1, 2, 4}
INVARIANTS OneToOne Ordered Spaced Mirror Family Conserved Adding Orders
CHECK_DEADLOCK FALSE
