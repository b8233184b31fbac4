CONSTANTS Sums = TRUE Gauges = FALSE
INIT Init
NEXT Next
INVARIANT Sane
CHECK_DEADLOCK FALSE
