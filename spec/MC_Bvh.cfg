SPECIFICATION MCSafe
CONSTANTS MaxN = 3  MaxX = 1  UseSah = FALSE  Rebuilds = 1
INVARIANTS TypeOK WellFormed OrderOK Enclosing Tight Nested FrontierOK Complete Exact
CHECK_DEADLOCK FALSE
