SPECIFICATION MCSpec
CONSTANTS MaxN = 4  MaxX = 1  UseSah = TRUE  Rebuilds = 1
INVARIANTS TypeOK WellFormed OrderOK Tight FrontierOK Complete Exact
PROPERTIES BuildEnds
CHECK_DEADLOCK FALSE
