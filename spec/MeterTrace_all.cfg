CONSTANTS Sums = TRUE Gauges = TRUE
INIT Init
NEXT Next
INVARIANT Sane
CHECK_DEADLOCK FALSE
